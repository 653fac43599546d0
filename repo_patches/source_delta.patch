From 907688866cb7c86643c436132a5c72ea4af42441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 01/43] fix: order languages again when one is added to or
 removed from an existing resource

The order of languages was only refreshed along with the order of resource
names, so Walk, WalkType and the writing functions could miss resources or
write a truncated section.
---
 rsrc.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index daf302f..71ebbc1 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -244,16 +244,19 @@ func (te *typeEntry) size() int {
 // order orders ids and names following the specification, and saves them in orderedKeys.
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
+	// Order LCIDs in every resource.
+	// They may have changed even if resource identifiers have not.
+	for _, re := range te.resources {
+		re.order()
+	}
+
 	if te.orderedKeys != nil {
 		return
 	}
 
 	te.orderedKeys = make([]Identifier, 0, len(te.resources))
-	for ident, re := range te.resources {
+	for ident := range te.resources {
 		te.orderedKeys = append(te.orderedKeys, ident)
-
-		// Order LCIDs in every resource
-		re.order()
 	}
 
 	// Names in case sensitive ascending order, then IDs in ascending order
-- 
2.43.0


From 4b719ed8d7ebf5d8cf5cd369a7b0058b95a70f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 02/43] fix: order names by UTF-16 code unit

Windows makes a binary search in resource directories, comparing UTF-16
strings. Names containing characters above U+FFFF were not always in the
right order.
---
 id.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 191d5dd..d4fd1b4 100644
--- a/id.go
+++ b/id.go
@@ -3,6 +3,7 @@ package winres
 import (
 	"errors"
 	"strings"
+	"unicode/utf16"
 )
 
 // ID is the type of a resource id, or resource type id.
@@ -27,7 +28,19 @@ func (id ID) lessThan(ident Identifier) bool {
 
 func (n Name) lessThan(ident Identifier) bool {
 	right, ok := ident.(Name)
-	return !ok || n < right
+	return !ok || lessUTF16(string(n), string(right))
+}
+
+// lessUTF16 compares strings the way they will be ordered in the resource directory: by UTF-16 code unit.
+// This is not the order of UTF-8 strings when some characters need surrogates.
+func lessUTF16(a, b string) bool {
+	left, right := utf16.Encode([]rune(a)), utf16.Encode([]rune(b))
+	for i := 0; i < len(left) && i < len(right); i++ {
+		if left[i] != right[i] {
+			return left[i] < right[i]
+		}
+	}
+	return len(left) < len(right)
 }
 
 func checkIdentifier(ident Identifier) error {
-- 
2.43.0


From e3da62027f97832690448d0582fc9aa999891b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 03/43] fix: refuse names that cannot be stored

Invalid UTF-8 was silently replaced, so that distinct names could collide in
the resource directory, and names longer than 65535 UTF-16 code units were
written with a wrong length.
---
 errors.go | 2 ++
 id.go     | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/errors.go b/errors.go
index 7f501c9..9feea69 100644
--- a/errors.go
+++ b/errors.go
@@ -6,6 +6,8 @@ const (
 	errZeroID          = "ordinal identifier must not be zero"
 	errEmptyName       = "string identifier must not be empty"
 	errNameContainsNUL = "string identifier must not contain NUL char"
+	errInvalidName     = "string identifier must be valid UTF-8"
+	errNameTooLong     = "string identifier is too long"
 
 	errUnknownArch = "unknown architecture"
 
diff --git a/id.go b/id.go
index d4fd1b4..ab660dd 100644
--- a/id.go
+++ b/id.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"strings"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ID is the type of a resource id, or resource type id.
@@ -56,6 +57,12 @@ func checkIdentifier(ident Identifier) error {
 		if strings.ContainsRune(string(ident), 0) {
 			return errors.New(errNameContainsNUL)
 		}
+		if !utf8.ValidString(string(ident)) {
+			return errors.New(errInvalidName)
+		}
+		if len(utf16.Encode([]rune(string(ident)))) > 0xFFFF {
+			return errors.New(errNameTooLong)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 82c83ce7d4053f37a261e7b03dee6f372ce69fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 04/43] fix: fail when the format cannot hold that many
 resources

Counts above 65535 were silently truncated, in directory tables and in the
number of relocations.
---
 coff.go   |  5 +++++
 errors.go |  2 ++
 rsrc.go   |  3 +++
 winres.go | 13 +++++++------
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/coff.go b/coff.go
index 3259c94..fe8b558 100644
--- a/coff.go
+++ b/coff.go
@@ -28,6 +28,11 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 		Characteristics:      _IMAGE_SCN_MEM_READ | _IMAGE_SCN_CNT_INITIALIZED_DATA,
 	}
 
+	if r.numDataEntries() > 0xFFFF {
+		// There must be one relocation per data entry
+		return errors.New(errTooManyResources)
+	}
+
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
 	section.SizeOfRawData = uint32(r.fullSize())
 	section.PointerToRelocations = section.PointerToRawData + section.SizeOfRawData
diff --git a/errors.go b/errors.go
index 9feea69..502fc8b 100644
--- a/errors.go
+++ b/errors.go
@@ -25,6 +25,8 @@ const (
 
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
+	errTooManyEntries       = "too many entries in a resource directory"
+	errTooManyResources     = "too many resources for an object file"
 
 	errNotPEImage    = "not a valid PE image"
 	errSignedPE      = "cannot modify a signed PE image"
diff --git a/rsrc.go b/rsrc.go
index 71ebbc1..7d562e3 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -383,6 +383,9 @@ type resourceDirectoryTable struct {
 const sizeOfDirTable = 16
 
 func writeDirectoryTable(w io.Writer, numNameEntries int, numIDEntries int) error {
+	if numNameEntries > 0xFFFF || numIDEntries > 0xFFFF {
+		return errors.New(errTooManyEntries)
+	}
 	return binary.Write(w, binary.LittleEndian, resourceDirectoryTable{
 		NumberOfNameEntries: uint16(numNameEntries),
 		NumberOfIDEntries:   uint16(numIDEntries),
diff --git a/winres.go b/winres.go
index dea9174..ed3db9c 100644
--- a/winres.go
+++ b/winres.go
@@ -316,12 +316,10 @@ func loadFromEXE(exe io.ReadSeeker, typeID Identifier) (*ResourceSet, error) {
 	return rs, nil
 }
 
-func (rs *ResourceSet) bytes() ([]byte, []int) {
+func (rs *ResourceSet) bytes() ([]byte, []int, error) {
 	buf := bytes.Buffer{}
-	// ResourceSet.write may only fail on io.Write() calls.
-	// bytes.Buffer.Write never returns an error.
-	reloc, _ := rs.write(&buf)
-	return buf.Bytes(), reloc
+	reloc, err := rs.write(&buf)
+	return buf.Bytes(), reloc, err
 }
 
 // WriteToEXE patches an executable to replace its resources with this ResourceSet.
@@ -336,7 +334,10 @@ func (rs *ResourceSet) bytes() ([]byte, []int) {
 //  WithAuthenticode(<how>) // Allows updating the .rsrc section despite the file being signed
 //
 func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOption) error {
-	data, reloc := rs.bytes()
+	data, reloc, err := rs.bytes()
+	if err != nil {
+		return err
+	}
 	options := exeOptions{}
 	for _, o := range opt {
 		o(&options)
-- 
2.43.0


From 9287b36a9aff12dc33a969a223dd06f1cdf60a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 05/43] fix: report seek errors and errors of the checksum pass

---
 exe.go    | 55 +++++++++++++++++++++++++++++++++++++++++--------------
 winres.go | 15 ++++++++++++---
 2 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/exe.go b/exe.go
index 9422d01..7c2ccd9 100644
--- a/exe.go
+++ b/exe.go
@@ -197,9 +197,15 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -226,7 +232,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +261,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -263,7 +275,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
@@ -279,7 +294,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -610,7 +628,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -672,18 +693,24 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	_, err = r.Seek(pos, io.SeekStart)
+	return size, err
 }
diff --git a/winres.go b/winres.go
index ed3db9c..25535b4 100644
--- a/winres.go
+++ b/winres.go
@@ -347,12 +347,21 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
-	exe.Seek(pos, io.SeekStart)
+	_, seekErr := exe.Seek(pos, io.SeekStart)
 	if err != nil {
 		return false, err
 	}
+	if seekErr != nil {
+		return false, seekErr
+	}
 	return len(h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil
 }
-- 
2.43.0


From 7dc9c1103b0c4bb46c712d0371d61606a4a54f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 06/43] fix: write zeros instead of seeking over what the
 destination held

---
 exe.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/exe.go b/exe.go
index 7c2ccd9..12f4e23 100644
--- a/exe.go
+++ b/exe.go
@@ -577,16 +577,6 @@ func writeBlank(w io.Writer, length int64) error {
 		return nil
 	}
 
-	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
-			return err
-		}
-		return nil
-	}
-
 	const bufLen = 0x100
 	var b [bufLen]byte
 	for length > 0 {
-- 
2.43.0


From 5371bad168b2753da1f3e5cb590148685409e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 07/43] fix: refuse images without an optional header or
 alignment instead of crashing

---
 exe.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 12f4e23..28ad794 100644
--- a/exe.go
+++ b/exe.go
@@ -304,6 +304,11 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
+	// Any alignment in this range can be rounded up to. Windows asks for powers of two, but other tools might not.
+	if a := pew.h.opt.getFileAlignment(); a == 0 || a > 0x10000 || pew.h.opt.getSectionAlignment() == 0 {
+		return nil, errors.New(errNotPEImage)
+	}
+
 	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 {
 		switch sigHandling {
 		case RemoveSignature:
@@ -642,7 +647,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
-- 
2.43.0


From 44049c1604ab4f05a3bdf36c38dded935887ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 08/43] fix: patch images that have no relocation section after
 the resources

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 28ad794..f0b5491 100644
--- a/exe.go
+++ b/exe.go
@@ -397,7 +397,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From 7205d26999435b0cd9b1c091666c1afc7e3bbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 09/43] fix: handle sections without data in the file or
 without virtual size

---
 exe.go | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/exe.go b/exe.go
index f0b5491..793fc9c 100644
--- a/exe.go
+++ b/exe.go
@@ -330,9 +330,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.src.fileSize < int64(pew.src.dataEnd) {
-		return nil, io.ErrUnexpectedEOF
-	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
@@ -369,14 +366,17 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
-		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
-			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
+		if pew.h.sections[i].VirtualAddress+sizeInMemory(&pew.h.sections[i]) > pew.src.virtEnd {
+			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + sizeInMemory(&pew.h.sections[i])
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
+		if !hasRawData(&pew.h.sections[i]) {
 			// Exclude sections containing uninitialized data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+			return io.ErrUnexpectedEOF
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
@@ -384,21 +384,42 @@ func (pew *peWriter) fillSectionsInfo() error {
 			pew.src.dataEnd = pew.h.sections[i].PointerToRawData + pew.h.sections[i].SizeOfRawData
 		}
 	}
+	if pew.src.dataEnd == 0 {
+		// No section has data in the file
+		return errors.New(errNoRoomForRSRC)
+	}
 	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
 
 	return nil
 }
 
+// hasRawData tells whether the section has data in the file.
+func hasRawData(sec *pe.SectionHeader32) bool {
+	return sec.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA == 0 && sec.SizeOfRawData != 0 && sec.PointerToRawData != 0
+}
+
+// sizeInMemory returns the virtual size of the section. When that field is zero, the system uses the raw size.
+func sizeInMemory(sec *pe.SectionHeader32) uint32 {
+	if sec.VirtualSize == 0 {
+		return sec.SizeOfRawData
+	}
+	return sec.VirtualSize
+}
+
 func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
 	}
-	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
+	if !hasRawData(pew.rsrcHdr) {
+		// There is no place for it in the file
+		return true
+	}
+	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + sizeInMemory(pew.rsrcHdr))
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
 	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
-		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
+		pew.roundVirt(pew.relocHdr.VirtualAddress+sizeInMemory(pew.relocHdr)) >= pew.src.virtEnd {
 		return false
 	}
 
@@ -439,7 +460,7 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
+		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(sizeInMemory(pew.rsrcHdr))
 		rawDelta := pew.roundRaw(rsrcLen) - pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
 		pew.rsrcHdr.VirtualSize = rsrcLen
 		pew.rsrcHdr.SizeOfRawData = pew.roundRaw(rsrcLen)
@@ -470,7 +491,7 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	pew.h.opt.setCheckSum(0)
-	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(lastSection.VirtualSize))
+	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(sizeInMemory(lastSection)))
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
-- 
2.43.0


From 1cba98f49105fc84d5d990a75f6fd4746da6780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 10/43] fix: keep appended data and section addresses when a
 resource section is added

---
 exe.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/exe.go b/exe.go
index 793fc9c..b1d25bd 100644
--- a/exe.go
+++ b/exe.go
@@ -330,15 +330,18 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
-
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
+	if pew.rsrcHdr == nil {
+		if int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF {
+			return nil, errors.New(errNoRoomForRSRC)
+		}
+		// The new section comes after the data of all others, and before anything that was appended to the image.
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 
 	pew.updateHeaders()
 
@@ -347,7 +350,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
-	pew.src.rsrcEnd = pew.src.fileSize
 
 	for i := range pew.h.sections {
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress {
@@ -424,7 +426,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(sizeInMemory(pew.rsrcHdr)) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From 12c5223d6367e87015ed78f090629a80d555c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 11/43] fix: move the symbol table pointer and the certificate
 entry along with their data

---
 exe.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index b1d25bd..282a5c5 100644
--- a/exe.go
+++ b/exe.go
@@ -481,8 +481,13 @@ func (pew *peWriter) updateHeaders() {
 		}
 	}
 
-	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+	// These are file offsets, they move along with the data that follows the .rsrc section.
+	rawShift := pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - uint32(pew.src.rsrcEnd)
+	if int64(pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress) >= pew.src.rsrcEnd {
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += rawShift
+	}
+	if int64(pew.h.file.PointerToSymbolTable) >= pew.src.rsrcEnd {
+		pew.h.file.PointerToSymbolTable += rawShift
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From 03dacd6535cdd6890fbb8ac8cbd001238c2919ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 12/43] fix: count a new resource section once in
 SizeOfInitializedData

---
 exe.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/exe.go b/exe.go
index 282a5c5..acb30cb 100644
--- a/exe.go
+++ b/exe.go
@@ -460,7 +460,6 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
-		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
 		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(sizeInMemory(pew.rsrcHdr))
-- 
2.43.0


From 0f77b67d760ca752d29df1993ecfe72d6f6e6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 13/43] fix: keep the data between the headers and the first
 section, make a new header part of the headers

---
 exe.go | 52 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/exe.go b/exe.go
index acb30cb..3e6105b 100644
--- a/exe.go
+++ b/exe.go
@@ -60,10 +60,12 @@ type peOptionalHeader interface {
 	getSectionAlignment() uint32
 	getFileAlignment() uint32
 	getNumberOfRvaAndSizes() uint32
+	getSizeOfHeaders() uint32
 	getCheckSum() uint32
 
 	setSizeOfInitializedData(uint32)
 	setSizeOfImage(uint32)
+	setSizeOfHeaders(uint32)
 	setCheckSum(uint32)
 }
 
@@ -116,6 +118,10 @@ func (h *peOptionalHeader32) getNumberOfRvaAndSizes() uint32 {
 	return h.NumberOfRvaAndSizes
 }
 
+func (h *peOptionalHeader32) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader32) getCheckSum() uint32 {
 	return h.CheckSum
 }
@@ -128,6 +134,10 @@ func (h *peOptionalHeader32) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader32) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader32) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -180,6 +190,10 @@ func (h *peOptionalHeader64) getNumberOfRvaAndSizes() uint32 {
 	return h.NumberOfRvaAndSizes
 }
 
+func (h *peOptionalHeader64) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader64) getCheckSum() uint32 {
 	return h.CheckSum
 }
@@ -192,6 +206,10 @@ func (h *peOptionalHeader64) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader64) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader64) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -339,6 +357,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		if int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF {
 			return nil, errors.New(errNoRoomForRSRC)
 		}
+		err = pew.makeRoomForHeader()
+		if err != nil {
+			return nil, err
+		}
 		// The new section comes after the data of all others, and before anything that was appended to the image.
 		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	}
@@ -438,6 +460,26 @@ func (pew *peWriter) requiresNewSection() bool {
 	return true
 }
 
+// makeRoomForHeader ensures a new section header will be part of the headers,
+// and that no data directory designates the place it takes.
+func (pew *peWriter) makeRoomForHeader() error {
+	end := uint32(pew.h.length) + sizeOfSectionHeader
+	if end > pew.h.opt.getSizeOfHeaders() {
+		size := pew.roundRaw(end)
+		for i := range pew.h.sections {
+			if pew.h.sections[i].VirtualAddress < size {
+				return errors.New(errNoRoomForRSRC)
+			}
+		}
+		pew.h.opt.setSizeOfHeaders(size)
+	}
+	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT].VirtualAddress < end {
+		// Bound imports are only an optimization, the image works without them.
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT] = pe.DataDirectory{}
+	}
+	return nil
+}
+
 func (pew *peWriter) updateHeaders() {
 	var (
 		rsrcLen     = uint32(len(pew.rsrcData))
@@ -559,21 +601,17 @@ func (pew *peWriter) writeEXE(w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	err = writeBlank(w, int64(pew.src.dataOffset)-pew.h.length)
-	if err != nil {
-		return err
-	}
-	_, err = pew.src.r.Seek(int64(pew.src.dataOffset), io.SeekStart)
+	_, err = pew.src.r.Seek(pew.h.length, io.SeekStart)
 	if err != nil {
 		return err
 	}
 
-	// Sections before .rsrc
+	// Data that follows the headers, and sections before .rsrc
 	end := int64(pew.src.dataEnd)
 	if int64(pew.rsrcHdr.PointerToRawData) < end {
 		end = int64(pew.rsrcHdr.PointerToRawData)
 	}
-	_, err = io.CopyN(w, pew.src.r, end-int64(pew.src.dataOffset))
+	_, err = io.CopyN(w, pew.src.r, end-pew.h.length)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 47f55cc0d0f9355f49067ade9663055759b55c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 14/43] fix: read every entry of directories that have more
 than 65535 of them

---
 rsrc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index 7d562e3..77b8772 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -509,7 +509,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e47b92be21b118c4830fd6ab6a499710226939c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 15/43] fix: keep the cost of loading resources in proportion
 with the section when entries overlap

---
 rsrc.go | 55 +++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index 77b8772..11cec77 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -436,7 +436,11 @@ func writeDataEntry(w io.Writer, offset int, dataSize int) error {
 // Reading functions:
 
 func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifier) error {
-	r := bytes.NewReader(section)
+	r := &sectionReader{
+		Reader: bytes.NewReader(section),
+		data:   section,
+		names:  make(map[uint32]Name),
+	}
 	return dirEntry{}.walk(r, func(typeEntry dirEntry) error {
 		if typeID != ID(0) &&
 			typeEntry.ident != typeID &&
@@ -457,6 +461,19 @@ func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifie
 	})
 }
 
+// sectionReader reads a resource section.
+//
+// It keeps memory and time in proportion with the size of the section, even when many entries
+// designate a same table, name or data.
+type sectionReader struct {
+	*bytes.Reader
+	data      []byte
+	names     map[uint32]Name // names by offset
+	nameBytes int             // size of all names read
+	entries   int             // number of directory entries read
+	copied    int             // size of all resource data copied
+}
+
 type dirEntry struct {
 	path   string
 	ident  Identifier
@@ -464,7 +481,7 @@ type dirEntry struct {
 	leaf   bool
 }
 
-func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
+func (de dirEntry) walk(section *sectionReader, fn func(dirEntry) error) error {
 	entries, err := de.readDirTable(section)
 	if err != nil {
 		return err
@@ -479,7 +496,7 @@ func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
 	return nil
 }
 
-func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte, error) {
+func (de dirEntry) readData(section *sectionReader, baseAddress uint32) ([]byte, error) {
 	section.Seek(de.offset, io.SeekStart)
 
 	entry := resourceDataEntry{}
@@ -493,14 +510,17 @@ func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte,
 		return nil, errors.New(errDataEntryOutOfBounds)
 	}
 
-	data := make([]byte, entry.Size)
-	section.Seek(offset, io.SeekStart)
-	section.Read(data)
+	end := offset + int64(entry.Size)
+	if section.copied+int(entry.Size) > len(section.data) {
+		// Some data is used more than once
+		return section.data[offset:end:end], nil
+	}
+	section.copied += int(entry.Size)
 
-	return data, nil
+	return append([]byte{}, section.data[offset:end]...), nil
 }
 
-func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
+func (de dirEntry) readDirTable(section *sectionReader) ([]dirEntry, error) {
 	section.Seek(de.offset, io.SeekStart)
 
 	table := resourceDirectoryTable{}
@@ -515,6 +535,12 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
+	section.entries += len(dir)
+	if section.entries > len(section.data)/sizeOfDirEntry {
+		// There would be more entries than the section can hold
+		return nil, errors.New(errInvalidResDir)
+	}
+
 	entries := make([]dirEntry, len(dir))
 	for i := range dir {
 		if de.leaf != (dir[i].Offset&subdirectoryOffset == 0) {
@@ -537,7 +563,11 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 	return entries, nil
 }
 
-func readName(section *bytes.Reader, offset uint32) (Name, error) {
+func readName(section *sectionReader, offset uint32) (Name, error) {
+	if name, ok := section.names[offset]; ok {
+		return name, nil
+	}
+
 	section.Seek(int64(offset), io.SeekStart)
 
 	var length uint16
@@ -552,5 +582,10 @@ func readName(section *bytes.Reader, offset uint32) (Name, error) {
 		return "", err
 	}
 
-	return Name(utf16.Decode(b)), nil
+	section.nameBytes += 2 * int(length)
+	if section.nameBytes > len(section.data) {
+		return "", errors.New(errInvalidResDir)
+	}
+	section.names[offset] = Name(utf16.Decode(b))
+	return section.names[offset], nil
 }
-- 
2.43.0


From 6d8dc7ae1994f969f0c5a9cb0e094f179229396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 16/43] fix: do not crash on an image that has 65535 sections

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 3e6105b..2a27689 100644
--- a/exe.go
+++ b/exe.go
@@ -740,7 +740,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 951952e7eaa0edff50b792baf5d2d9a25bfa7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 17/43] fix: check and compare names without allocating

---
 id.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/id.go b/id.go
index ab660dd..efc87c9 100644
--- a/id.go
+++ b/id.go
@@ -3,7 +3,6 @@ package winres
 import (
 	"errors"
 	"strings"
-	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -35,13 +34,33 @@ func (n Name) lessThan(ident Identifier) bool {
 // lessUTF16 compares strings the way they will be ordered in the resource directory: by UTF-16 code unit.
 // This is not the order of UTF-8 strings when some characters need surrogates.
 func lessUTF16(a, b string) bool {
-	left, right := utf16.Encode([]rune(a)), utf16.Encode([]rune(b))
-	for i := 0; i < len(left) && i < len(right); i++ {
-		if left[i] != right[i] {
-			return left[i] < right[i]
+	for a != "" && b != "" {
+		left, leftLen := utf8.DecodeRuneInString(a)
+		right, rightLen := utf8.DecodeRuneInString(b)
+		if left != right {
+			if left > 0xFFFF && right <= 0xFFFF {
+				return right > 0xDFFF
+			}
+			if right > 0xFFFF && left <= 0xFFFF {
+				return left < 0xD800
+			}
+			return left < right
 		}
+		a, b = a[leftLen:], b[rightLen:]
 	}
-	return len(left) < len(right)
+	return a == "" && b != ""
+}
+
+// lenUTF16 returns the number of UTF-16 code units needed to encode s.
+func lenUTF16(s string) int {
+	n := 0
+	for _, r := range s {
+		if r > 0xFFFF {
+			n++
+		}
+		n++
+	}
+	return n
 }
 
 func checkIdentifier(ident Identifier) error {
@@ -60,7 +79,7 @@ func checkIdentifier(ident Identifier) error {
 		if !utf8.ValidString(string(ident)) {
 			return errors.New(errInvalidName)
 		}
-		if len(utf16.Encode([]rune(string(ident)))) > 0xFFFF {
+		if lenUTF16(string(ident)) > 0xFFFF {
 			return errors.New(errNameTooLong)
 		}
 	}
-- 
2.43.0


From 496739b6dd396be0ced836db5e397e0763005f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 18/43] fix: do not crash on cursor images too short to hold a
 header or a hot spot

---
 cursor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..ddb3f67 100644
--- a/cursor.go
+++ b/cursor.go
@@ -202,6 +202,9 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			return nil, errors.New(errUnknownImageFormat)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -321,6 +324,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From 44a1f248f59d4f4f678d94df70ab30d8b6ad791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 19/43] fix: save ICO files with the actual size of images

---
 icon.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index fb634d3..83cb80a 100644
--- a/icon.go
+++ b/icon.go
@@ -116,8 +116,10 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		info := icon.images[i].info
+		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
-- 
2.43.0


From 3e5f38a923c6306181d90ec27c3074da63c33d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 20/43] fix: refuse icon sizes that are not between 1 and 256
 before resizing

---
 icon.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/icon.go b/icon.go
index 83cb80a..ba8f773 100644
--- a/icon.go
+++ b/icon.go
@@ -49,9 +49,18 @@ func NewIconFromResizedImage(img image.Image, sizes []int) (*Icon, error) {
 	if len(sizes) > 30 {
 		return nil, errors.New(errTooManyIconSizes)
 	}
+	if img.Bounds().Empty() {
+		return nil, errors.New(errInvalidImageDimensions)
+	}
 
 	icon := Icon{}
 	for _, s := range sizes {
+		if s <= 0 {
+			return nil, errors.New(errInvalidImageDimensions)
+		}
+		if s > 256 {
+			return nil, errors.New(errImageTooBig)
+		}
 		if err := icon.addImage(resizeImage(img, s)); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 126827069018535dcdcd1d9d98d80b9fdf9dbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 21/43] fix: make opaque icons 32bpp PNG, as documented

---
 icon.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index ba8f773..a0f607d 100644
--- a/icon.go
+++ b/icon.go
@@ -292,7 +292,7 @@ func (icon *Icon) addImage(img image.Image) error {
 	img = imageInSquareNRGBA(img, true)
 	bounds = img.Bounds()
 	buf := &bytes.Buffer{}
-	if err := pngEncode(buf, img); err != nil {
+	if err := pngEncode(buf, withAlpha{img}); err != nil {
 		return err
 	}
 
@@ -312,6 +312,16 @@ func (icon *Icon) addImage(img image.Image) error {
 	return nil
 }
 
+// withAlpha makes the PNG encoder keep an alpha channel, even when the image is opaque,
+// because PNG icons must be 32bpp.
+type withAlpha struct {
+	image.Image
+}
+
+func (withAlpha) Opaque() bool {
+	return false
+}
+
 func (icon *Icon) order() {
 	// Sort images by descending size and quality
 	sort.SliceStable(icon.images, func(i, j int) bool {
-- 
2.43.0


From 8cbbc906f153794682676742a66aaf73e0a2fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 22/43] fix: make opaque cursors 32bpp, as their header says

---
 cursor.go | 15 +++++++++++++++
 icon.go   | 13 ++++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cursor.go b/cursor.go
index ddb3f67..c532d05 100644
--- a/cursor.go
+++ b/cursor.go
@@ -281,6 +281,16 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	// PNG icons, on the other hand, are very common.
 	buf := &bytes.Buffer{}
 	curImg := imageInSquareNRGBA(img, false)
+	opaque := curImg.Opaque()
+	if opaque {
+		// The BMP encoder would drop the alpha channel. Hide that it is useless, in a copy.
+		curImg = &image.NRGBA{
+			Pix:    append([]byte{}, curImg.Pix...),
+			Stride: curImg.Stride,
+			Rect:   curImg.Rect,
+		}
+		curImg.Pix[3] = 0
+	}
 	if err := bmpEncode(buf, curImg); err != nil {
 		return err
 	}
@@ -295,6 +305,11 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	dib[8] = byte(height << 1)
 	dib[9] = byte(height >> 7)
 
+	if opaque {
+		// Rows are stored from bottom to top
+		dib[len(dib)-4*width+3] = 0xFF
+	}
+
 	cursor.images = append(cursor.images, cursorImage{
 		info: cursorInfo{
 			Width:      uint16(width),
diff --git a/icon.go b/icon.go
index a0f607d..e450b5d 100644
--- a/icon.go
+++ b/icon.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"image"
-	"image/color"
 	"image/png"
 	"io"
 	"sort"
@@ -289,10 +288,10 @@ func (icon *Icon) addImage(img image.Image) error {
 		return errors.New(errImageTooBig)
 	}
 
-	img = imageInSquareNRGBA(img, true)
-	bounds = img.Bounds()
+	square := imageInSquareNRGBA(img, true)
+	bounds = square.Bounds()
 	buf := &bytes.Buffer{}
-	if err := pngEncode(buf, withAlpha{img}); err != nil {
+	if err := pngEncode(buf, withAlpha{square}); err != nil {
 		return err
 	}
 
@@ -346,10 +345,10 @@ func resizeImage(img image.Image, size int) image.Image {
 	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
 }
 
-func imageInSquareNRGBA(img image.Image, center bool) image.Image {
+func imageInSquareNRGBA(img image.Image, center bool) *image.NRGBA {
 	w, h := img.Bounds().Size().X, img.Bounds().Size().Y
-	if w == h && img.ColorModel() == color.NRGBAModel {
-		return img
+	if nrgba, ok := img.(*image.NRGBA); ok && w == h {
+		return nrgba
 	}
 
 	length := w
-- 
2.43.0


From c54576f8038af17b255203df96270f21d9a4c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 23/43] fix: do not read more image bytes than ICO and CUR
 files hold

---
 cursor.go | 13 +++++------
 icon.go   | 64 +++++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/cursor.go b/cursor.go
index c532d05..8fb05a7 100644
--- a/cursor.go
+++ b/cursor.go
@@ -63,17 +63,14 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 	}
 
 	cursor := &Cursor{}
+	images := imageReader{}
 	for _, e := range entries {
-		// Arbitrary limit: no more than 10MB per image, so we can blindly allocate bytes and try to read them.
-		if e.BytesInRes > 0xA00000 {
-			return nil, errors.New(errImageLengthTooBig)
-		}
-		if _, err := cur.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {
+		img, ok, err := images.read(cur, e.ImageOffset, e.BytesInRes)
+		if err != nil {
 			return nil, err
 		}
-		img := make([]byte, e.BytesInRes)
-		if err := readFull(cur, img); err != nil {
-			return nil, err
+		if !ok {
+			return nil, errors.New(errNotCUR)
 		}
 
 		planes, bitCount, err := readDIBBitCount(img)
diff --git a/icon.go b/icon.go
index e450b5d..e5f5b1c 100644
--- a/icon.go
+++ b/icon.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"image"
 	"image/png"
 	"io"
@@ -85,17 +84,14 @@ func LoadICO(ico io.ReadSeeker) (*Icon, error) {
 	}
 
 	icon := &Icon{}
+	images := imageReader{}
 	for _, e := range entries {
-		// Arbitrary limit: no more than 10MB per image, so we can blindly allocate bytes and try to read them.
-		if e.BytesInRes > 0xA00000 {
-			return nil, fmt.Errorf(errImageLengthTooBig)
-		}
-		if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {
+		img, ok, err := images.read(ico, e.ImageOffset, e.BytesInRes)
+		if err != nil {
 			return nil, err
 		}
-		img := make([]byte, e.BytesInRes)
-		if err := readFull(ico, img); err != nil {
-			return nil, err
+		if !ok {
+			return nil, errors.New(errNotICO)
 		}
 		icon.images = append(icon.images, iconImage{
 			info:  e.iconInfo,
@@ -106,6 +102,56 @@ func LoadICO(ico io.ReadSeeker) (*Icon, error) {
 	return icon, nil
 }
 
+// imageReader reads the images of an ICO or CUR file.
+//
+// It ensures what is read is not bigger than the file, no matter how many entries designate the same bytes.
+type imageReader struct {
+	images map[imageLocation][]byte
+	total  int64
+	end    int64
+}
+
+type imageLocation struct {
+	offset uint32
+	size   uint32
+}
+
+// read returns false if the image overlaps too many other images.
+func (ir *imageReader) read(r io.ReadSeeker, offset uint32, size uint32) ([]byte, bool, error) {
+	// Arbitrary limit: no more than 10MB per image, so we can blindly allocate bytes and try to read them.
+	if size > 0xA00000 {
+		return nil, false, errors.New(errImageLengthTooBig)
+	}
+
+	loc := imageLocation{offset, size}
+	if img, ok := ir.images[loc]; ok {
+		return img, true, nil
+	}
+
+	if _, err := r.Seek(int64(offset), io.SeekStart); err != nil {
+		return nil, false, err
+	}
+	img := make([]byte, size)
+	if err := readFull(r, img); err != nil {
+		return nil, false, err
+	}
+
+	ir.total += int64(size)
+	if end := int64(offset) + int64(size); end > ir.end {
+		ir.end = end
+	}
+	if ir.total > ir.end {
+		return nil, false, nil
+	}
+
+	if ir.images == nil {
+		ir.images = make(map[imageLocation][]byte)
+	}
+	ir.images[loc] = img
+
+	return img, true, nil
+}
+
 // SaveICO saves an icon as an ICO file.
 func (icon *Icon) SaveICO(ico io.Writer) error {
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
-- 
2.43.0


From d6485bd1fae233dd10746ceb67490eab49711c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 24/43] fix: leave the set unchanged when the identifier of an
 icon or cursor is refused

---
 cursor.go | 4 ++++
 icon.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cursor.go b/cursor.go
index 8fb05a7..a7c559f 100644
--- a/cursor.go
+++ b/cursor.go
@@ -147,6 +147,10 @@ func (rs *ResourceSet) SetCursor(resID Identifier, cursor *Cursor) error {
 
 // SetCursorTranslation adds the cursor to a specific language in the resource set.
 func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cursor *Cursor) error {
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
diff --git a/icon.go b/icon.go
index e5f5b1c..5987dee 100644
--- a/icon.go
+++ b/icon.go
@@ -212,6 +212,10 @@ func (rs *ResourceSet) SetIcon(resID Identifier, icon *Icon) error {
 //  2. First ID in ascending order
 //
 func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon *Icon) error {
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, iconDirHeader{
 		Type:  1,
-- 
2.43.0


From 9ddc20c29aeacbc82d517e5ddca7565088faaa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 25/43] fix: refuse more images than a file can list, and
 images whose size overflows

---
 cursor.go |  6 +++++-
 icon.go   | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cursor.go b/cursor.go
index a7c559f..f549741 100644
--- a/cursor.go
+++ b/cursor.go
@@ -99,6 +99,10 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 
 // SaveCUR saves a cursor as a CUR file.
 func (cursor *Cursor) SaveCUR(ico io.Writer) error {
+	if len(cursor.images) > 0xFFFF {
+		return errors.New(errTooManyIconSizes)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &cursorDirHeader{
 		Type:  2,
 		Count: uint16(len(cursor.images)),
@@ -273,7 +277,7 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	if bounds.Empty() {
 		return errors.New(errInvalidImageDimensions)
 	}
-	if bounds.Size().X > 256 || bounds.Size().Y > 256 {
+	if isTooBig(bounds) {
 		return errors.New(errImageTooBig)
 	}
 
diff --git a/icon.go b/icon.go
index 5987dee..6efc0ff 100644
--- a/icon.go
+++ b/icon.go
@@ -154,6 +154,10 @@ func (ir *imageReader) read(r io.ReadSeeker, offset uint32, size uint32) ([]byte
 
 // SaveICO saves an icon as an ICO file.
 func (icon *Icon) SaveICO(ico io.Writer) error {
+	if len(icon.images) > 0xFFFF {
+		return errors.New(errTooManyIconSizes)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
 		Type:  1,
 		Count: uint16(len(icon.images)),
@@ -334,7 +338,7 @@ func (icon *Icon) addImage(img image.Image) error {
 	if bounds.Empty() {
 		return errors.New(errInvalidImageDimensions)
 	}
-	if bounds.Size().X > 256 || bounds.Size().Y > 256 {
+	if isTooBig(bounds) {
 		return errors.New(errImageTooBig)
 	}
 
@@ -371,6 +375,13 @@ func (withAlpha) Opaque() bool {
 	return false
 }
 
+// isTooBig tells whether a side is above 256 pixels.
+func isTooBig(bounds image.Rectangle) bool {
+	sz := bounds.Size()
+	// A negative size is an overflow
+	return sz.X > 256 || sz.Y > 256 || sz.X < 0 || sz.Y < 0
+}
+
 func (icon *Icon) order() {
 	// Sort images by descending size and quality
 	sort.SliceStable(icon.images, func(i, j int) bool {
-- 
2.43.0


From 91529e45b454c76bae7d0a496b12494cdedeeea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 26/43] fix: accept thin images when making an icon by resizing

---
 icon.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/icon.go b/icon.go
index 6efc0ff..969cbfa 100644
--- a/icon.go
+++ b/icon.go
@@ -397,12 +397,22 @@ func resizeImage(img image.Image, size int) image.Image {
 		w, h = size, size
 	)
 
+	// The missing size will be computed by resize.Resize.
 	if sz.X < sz.Y {
 		w = 0
 	} else if sz.X > sz.Y {
 		h = 0
 	}
 
+	// However thin the image is, it should not disappear.
+	const round = 0.7 // See resize.Resize
+	if w == 0 && round+float64(sz.X)*float64(size)/float64(sz.Y) < 1 {
+		w = 1
+	}
+	if h == 0 && round+float64(sz.Y)*float64(size)/float64(sz.X) < 1 {
+		h = 1
+	}
+
 	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
 }
 
-- 
2.43.0


From 9a8c369c3e98a02272fbdf999ad0c38d8460cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 27/43] fix: convert any timestamp, not only those between 1678
 and 2262

---
 version/timestamp.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/version/timestamp.go b/version/timestamp.go
index 9b34d00..9b46a81 100644
--- a/version/timestamp.go
+++ b/version/timestamp.go
@@ -4,23 +4,30 @@ import "time"
 
 // Conversion of Windows Time Stamp
 
-// Difference Unix epoch in Windows timestamp format.
-const unixEpoch = 0x019DB1DED53E8000
+// Number of seconds between the Windows epoch (January 1, 1601) and the Unix epoch.
+const unixEpoch = 11644473600
 
 // Windows timestamp is in "hecto-nanoseconds" (100 ns)
 const tsUnitToNano = 100
+const tsUnitsPerSecond = 10000000
 
 func timeToTimestamp(t time.Time) (uint32, uint32) {
 	if t.IsZero() {
 		return 0, 0
 	}
-	ts := t.UnixNano()/tsUnitToNano + unixEpoch
-	return uint32(uint64(ts) >> 32), uint32(ts)
+	sec := t.Unix() + unixEpoch
+	if sec < 0 || sec >= (1<<64-1)/tsUnitsPerSecond {
+		// It cannot be represented
+		return 0, 0
+	}
+	ts := uint64(sec)*tsUnitsPerSecond + uint64(t.Nanosecond()/tsUnitToNano)
+	return uint32(ts >> 32), uint32(ts)
 }
 
 func timestampToTime(ms uint32, ls uint32) time.Time {
 	if ms == 0 && ls == 0 {
 		return time.Time{}
 	}
-	return time.Unix(0, int64((uint64(ms)<<32|uint64(ls))-unixEpoch)*tsUnitToNano)
+	ts := uint64(ms)<<32 | uint64(ls)
+	return time.Unix(int64(ts/tsUnitsPerSecond)-unixEpoch, int64(ts%tsUnitsPerSecond)*tsUnitToNano)
 }
-- 
2.43.0


From 55b50a9fd2cbaad87ddb7e99f4bbb79d6aee3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 28/43] fix: read version strings that have no terminator,
 several of them, or no value

---
 version/binary.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..5cd7d91 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,21 +374,27 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
 	if length == 0 {
+		// There might be nothing, not even padding
 		return "", nil
 	}
+
+	data = data[*pos:]
+
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
+	*pos += length * 2
 
-	length--
-	wString := make([]uint16, length)
+	// The length usually includes a NUL terminator, but there might be none, or several of them.
+	wString := make([]uint16, 0, length)
 	for i := 0; i < length; i++ {
-		wString[i] = uint16(data[i*2+1])<<8 | uint16(data[i*2])
+		c := uint16(data[i*2+1])<<8 | uint16(data[i*2])
+		if c == 0 {
+			break
+		}
+		wString = append(wString, c)
 	}
-	*pos += (length + 1) * 2
 
 	return string(utf16.Decode(wString)), nil
 }
-- 
2.43.0


From deb8ce7c31e890288033df50b96387dce1d5a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 29/43] fix: fail when reading something that is not a Unicode
 VS_VERSION_INFO structure

---
 version/binary.go | 5 ++++-
 version/errors.go | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/version/binary.go b/version/binary.go
index 5cd7d91..64bbf38 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -252,7 +252,10 @@ func (vi *Info) readNode(parent interface{}, data []byte) (int, error) {
 	}
 
 	switch true {
-	case parent == nil && key == vsVersionInfo:
+	case parent == nil && key != vsVersionInfo:
+		return 0, errors.New(errNotVersionInfo)
+
+	case parent == nil:
 		if n.ValueLength >= sizeOfFixedFileInfo {
 			err := vi.readFixedStruct(data[align(pos):])
 			if err != nil {
diff --git a/version/errors.go b/version/errors.go
index 71bc14d..bcdafb3 100644
--- a/version/errors.go
+++ b/version/errors.go
@@ -1,6 +1,7 @@
 package version
 
 const (
+	errNotVersionInfo      = "not a VS_VERSION_INFO structure"
 	errInvalidSignature    = "invalid fixed file info signature"
 	errInvalidLength       = "invalid length"
 	errInvalidLangID       = "invalid language id"
-- 
2.43.0


From 3202e837aa248454794c5fcc9670da7523676dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 30/43] fix: store version information even when it has no
 strings

---
 winres.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/winres.go b/winres.go
index 25535b4..79c112f 100644
--- a/winres.go
+++ b/winres.go
@@ -93,7 +93,13 @@ func (rs *ResourceSet) Set(typeID, resID Identifier, langID uint16, data []byte)
 //
 // This what Windows displays in the Details tab of file properties.
 func (rs *ResourceSet) SetVersionInfo(vi version.Info) {
-	for langID, res := range vi.SplitTranslations() {
+	translations := vi.SplitTranslations()
+	if len(translations) == 0 {
+		// There is no string, but there is a fixed part
+		rs.Set(RT_VERSION, ID(1), LCIDNeutral, vi.Bytes())
+		return
+	}
+	for langID, res := range translations {
 		rs.Set(RT_VERSION, ID(1), langID, res.Bytes())
 	}
 }
-- 
2.43.0


From c036865647915eb67ffa3cda782d1392f2a95fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 31/43] fix: do not crash on the main translation of an empty
 table, or when merging nil

---
 version/version.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/version/version.go b/version/version.go
index 8997ac2..f8f1118 100644
--- a/version/version.go
+++ b/version/version.go
@@ -209,6 +209,9 @@ func MergeTranslations(translations map[uint16]*Info) *Info {
 	vi.FileVersion = main.FileVersion
 
 	for langID, trans := range translations {
+		if trans == nil {
+			continue
+		}
 		st := trans.lt[langID]
 		if st == nil || len(*st) == 0 {
 			st = trans.lt[LangNeutral]
@@ -258,12 +261,13 @@ func findMainTranslation(translations map[uint16]*Info) *Info {
 	}
 
 	var lang uint16 = 0xFFFF
-	for k := range translations {
-		if k < lang {
+	for k, v := range translations {
+		if v != nil && k <= lang {
 			lang = k
+			main = v
 		}
 	}
-	return translations[lang]
+	return main
 }
 
 func versionStringToArray(v string) [4]uint16 {
@@ -349,11 +353,10 @@ func (lt LangTable) GetMainTranslation() StringTable {
 		return *main
 	}
 
-	var lang uint16 = 0xFFFF
-	for k := range lt {
-		if k < lang {
-			lang = k
+	for _, lang := range lt.sortedKeys() {
+		if lt[lang] != nil {
+			return *lt[lang]
 		}
 	}
-	return *lt[lang]
+	return nil
 }
-- 
2.43.0


From 8c0ddc799a339e84d727050eaac2c2e6fa289a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 32/43] fix: do not let colours overflow when resizing
 translucent images

---
 icon.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index 969cbfa..ac169ee 100644
--- a/icon.go
+++ b/icon.go
@@ -413,7 +413,44 @@ func resizeImage(img image.Image, size int) image.Image {
 		h = 1
 	}
 
-	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
+	resized := resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
+
+	// The filter may produce alpha-premultiplied components that exceed alpha,
+	// in which case converting them to NRGBA would overflow.
+	switch m := resized.(type) {
+	case *image.RGBA:
+		if m != img {
+			clampToAlpha8(m.Pix)
+		}
+	case *image.RGBA64:
+		if m != img {
+			clampToAlpha16(m.Pix)
+		}
+	}
+
+	return resized
+}
+
+func clampToAlpha8(pix []byte) {
+	for i := 0; i+4 <= len(pix); i += 4 {
+		p := pix[i : i+4]
+		for j := 0; j < 3; j++ {
+			if p[j] > p[3] {
+				p[j] = p[3]
+			}
+		}
+	}
+}
+
+func clampToAlpha16(pix []byte) {
+	for i := 0; i+8 <= len(pix); i += 8 {
+		p := pix[i : i+8]
+		for j := 0; j < 6; j += 2 {
+			if p[j] > p[6] || p[j] == p[6] && p[j+1] > p[7] {
+				p[j], p[j+1] = p[6], p[7]
+			}
+		}
+	}
 }
 
 func imageInSquareNRGBA(img image.Image, center bool) *image.NRGBA {
-- 
2.43.0


From adf8171e4a25a09f00ceb88a4a76ce7e4560e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 33/43] fix: refuse JSON strings that Set refuses, and do not
 crash on null tables

---
 version/json.go    | 12 +++++++++++-
 version/version.go | 19 +++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/version/json.go b/version/json.go
index ca1e1a5..f030d16 100644
--- a/version/json.go
+++ b/version/json.go
@@ -75,6 +75,16 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, jvi); err != nil {
 		return err
 	}
+	for _, st := range jvi.Info {
+		if st == nil {
+			continue
+		}
+		for k, v := range *st {
+			if err := checkStrings(k, v); err != nil {
+				return err
+			}
+		}
+	}
 	*vi = Info{}
 	jf := jvi.Fixed
 	if jf != nil {
@@ -103,7 +113,7 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	for h, v := range jvi.Info {
 		var k uint16
 		_, err := fmt.Sscanf(h, "%X", &k)
-		if err == nil {
+		if err == nil && v != nil {
 			vi.lt[k] = v
 		}
 	}
diff --git a/version/version.go b/version/version.go
index f8f1118..46b3e00 100644
--- a/version/version.go
+++ b/version/version.go
@@ -107,6 +107,19 @@ func (vi *Info) Set(langID uint16, key string, value string) error {
 	if vi.lt == nil {
 		vi.lt = make(LangTable)
 	}
+	if err := checkStrings(key, value); err != nil {
+		return err
+	}
+	st, ok := vi.lt[langID]
+	if !ok {
+		st = &StringTable{}
+		vi.lt[langID] = st
+	}
+	(*st)[key] = value
+	return nil
+}
+
+func checkStrings(key string, value string) error {
 	if key == "" {
 		return errors.New(errEmptyKey)
 	}
@@ -116,12 +129,6 @@ func (vi *Info) Set(langID uint16, key string, value string) error {
 	if strings.ContainsRune(value, 0) {
 		return errors.New(errValueContainsNUL)
 	}
-	st, ok := vi.lt[langID]
-	if !ok {
-		st = &StringTable{}
-		vi.lt[langID] = st
-	}
-	(*st)[key] = value
 	return nil
 }
 
-- 
2.43.0


From 8dc8f2ae9f624e718f5af22abeb3b7dc4e27771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 34/43] fix: write well-formed manifests whatever their texts
 contain

---
 manifest.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 08c037f..8a79bf2 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,10 +95,10 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | html}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | xmlAttr}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
-  <description>{{.Description | html}}</description>
+  <description>{{.Description | xmlText}}</description>
 {{- end}}
 
   <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
@@ -224,7 +224,7 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Parse(manifestTemplate))
+	tmpl := template.Must(template.New("manifest").Funcs(manifestFuncs).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -233,6 +233,27 @@ func makeManifest(manifest AppManifest) []byte {
 	return buf.Bytes()
 }
 
+var manifestFuncs = template.FuncMap{
+	"xmlAttr": escapeXMLAttr,
+	"xmlText": escapeXMLText,
+}
+
+// escapeXMLAttr makes a text that can be written as an attribute value.
+//
+// Characters that XML cannot represent are replaced with U+FFFD.
+func escapeXMLAttr(s string) string {
+	buf := &bytes.Buffer{}
+	xml.EscapeText(buf, []byte(s)) // writing to a buffer cannot fail
+	return buf.String()
+}
+
+// escapeXMLText makes a text that can be written as the content of an element, where line feeds and tabs are left as is.
+//
+// Characters that XML cannot represent are replaced with U+FFFD.
+func escapeXMLText(s string) string {
+	return strings.NewReplacer("&#xA;", "\n", "&#x9;", "\t").Replace(escapeXMLAttr(s))
+}
+
 type appManifestXML struct {
 	Identity struct {
 		Name    string `xml:"name,attr"`
-- 
2.43.0


From 27bbce626d2cb6874342ff803b83888ff8cdd10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 35/43] fix: read supported OS identifiers in any letter case,
 ignore unknown ones

---
 manifest.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index 8a79bf2..7dec559 100644
--- a/manifest.go
+++ b/manifest.go
@@ -401,7 +401,7 @@ func manifestBool(s string) bool {
 }
 
 func osIDToEnum(osID string) SupportedOS {
-	switch osID {
+	switch manifestString(osID) {
 	case osWinVista:
 		return WinVistaAndAbove
 	case osWin7:
@@ -410,8 +410,11 @@ func osIDToEnum(osID string) SupportedOS {
 		return Win8AndAbove
 	case osWin81:
 		return Win81AndAbove
+	case osWin10:
+		return Win10AndAbove
 	}
-	return Win10AndAbove
+	// Unknown, must be ignored
+	return Win10AndAbove + 1
 }
 
 // JSON marshalling:
-- 
2.43.0


From 505421cf3dd7fc4c5d9d8e79f5ee5cc2d8b9becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 36/43] fix: understand the value "per monitor" of dpiAware

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 7dec559..92817c4 100644
--- a/manifest.go
+++ b/manifest.go
@@ -386,7 +386,7 @@ func readDPIAwareness(dpiAware string, dpiAwareness string) DPIAwareness {
 	switch manifestString(dpiAware) {
 	case "true":
 		return DPIAware
-	case "true/pm":
+	case "true/pm", "per monitor":
 		return DPIPerMonitor
 	}
 	return DPIUnaware
-- 
2.43.0


From f474531793e5f8daaf18b836e8af6bc9c6b629b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 37/43] fix: ignore spaces around the version of a manifest

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 92817c4..4e78cbf 100644
--- a/manifest.go
+++ b/manifest.go
@@ -323,7 +323,7 @@ func AppManifestFromXML(data []byte) (AppManifest, error) {
 		v = v[:4]
 	}
 	for i := range v {
-		n, _ := strconv.ParseUint(v[i], 10, 16)
+		n, _ := strconv.ParseUint(strings.TrimSpace(v[i]), 10, 16)
 		m.Identity.Version[i] = uint16(n)
 	}
 	m.Description = x.Description
-- 
2.43.0


From 3807b5cb460ab29a0c98928207a81524c7484e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 38/43] fix: refuse resources whose offsets or addresses do not
 fit in 32 bits

---
 coff.go   |  3 +++
 errors.go |  1 +
 exe.go    | 20 ++++++++++++++++++++
 rsrc.go   | 10 ++++++++++
 winres.go |  3 +++
 5 files changed, 37 insertions(+)

diff --git a/coff.go b/coff.go
index fe8b558..daac757 100644
--- a/coff.go
+++ b/coff.go
@@ -32,6 +32,9 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 		// There must be one relocation per data entry
 		return errors.New(errTooManyResources)
 	}
+	if err := r.checkSize(); err != nil {
+		return err
+	}
 
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
 	section.SizeOfRawData = uint32(r.fullSize())
diff --git a/errors.go b/errors.go
index 502fc8b..5756d26 100644
--- a/errors.go
+++ b/errors.go
@@ -27,6 +27,7 @@ const (
 	errDataEntryOutOfBounds = "data entry out of bounds"
 	errTooManyEntries       = "too many entries in a resource directory"
 	errTooManyResources     = "too many resources for an object file"
+	errResourcesTooBig      = "resources are too big, offsets must fit in 32 bits"
 
 	errNotPEImage    = "not a valid PE image"
 	errSignedPE      = "cannot modify a signed PE image"
diff --git a/exe.go b/exe.go
index 2a27689..d7a6670 100644
--- a/exe.go
+++ b/exe.go
@@ -365,11 +365,31 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	}
 
+	err = pew.checkSize()
+	if err != nil {
+		return nil, err
+	}
+
 	pew.updateHeaders()
 
 	return &pew, nil
 }
 
+// checkSize returns an error when 32-bit fields cannot hold the offsets and addresses of the new image.
+func (pew *peWriter) checkSize() error {
+	rawEnd := int64(pew.src.dataEnd) + int64(pew.h.opt.getFileAlignment())
+	virtEnd := int64(pew.src.virtEnd) + int64(pew.h.opt.getSectionAlignment())
+	if pew.rsrcHdr != nil {
+		rawEnd -= int64(pew.rsrcHdr.SizeOfRawData)
+		virtEnd -= int64(sizeInMemory(pew.rsrcHdr))
+	}
+	size := int64(len(pew.rsrcData)) + int64(pew.h.opt.getFileAlignment())
+	if rawEnd+size > 0xFFFFFFFF || virtEnd+size > 0xFFFFFFFF {
+		return errors.New(errResourcesTooBig)
+	}
+	return nil
+}
+
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
 
diff --git a/rsrc.go b/rsrc.go
index 11cec77..20bb5b4 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -207,6 +207,16 @@ func (rs *ResourceSet) fullSize() int {
 	return sz
 }
 
+// checkSize returns an error when 32-bit fields cannot hold the offsets inside the section,
+// or those of what follows it in an object file.
+func (rs *ResourceSet) checkSize() error {
+	const maxHeaders = 1 << 20 // headers, relocations and symbol of an object file
+	if int64(rs.fullSize()) > 0xFFFFFFFF-maxHeaders {
+		return errors.New(errResourcesTooBig)
+	}
+	return nil
+}
+
 // dirSize returns the size of the rsrc section's directory.
 func (rs *ResourceSet) dirSize() int {
 	sz := sizeOfDirTable + len(rs.types)*sizeOfDirEntry
diff --git a/winres.go b/winres.go
index 79c112f..5ec516a 100644
--- a/winres.go
+++ b/winres.go
@@ -340,6 +340,9 @@ func (rs *ResourceSet) bytes() ([]byte, []int, error) {
 //  WithAuthenticode(<how>) // Allows updating the .rsrc section despite the file being signed
 //
 func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOption) error {
+	if err := rs.checkSize(); err != nil {
+		return err
+	}
 	data, reloc, err := rs.bytes()
 	if err != nil {
 		return err
-- 
2.43.0


From 5b9386b89ad94b5bd69ef44dc16f6e69cb4ecfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 39/43] fix: give the actual sizes of image resources in icon
 and cursor groups

Groups of cursors loaded from files gave sizes without the hot spot, and
groups extracted from other executables could give any size.
---
 cursor.go | 4 +++-
 icon.go   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index f549741..4dea161 100644
--- a/cursor.go
+++ b/cursor.go
@@ -164,13 +164,15 @@ func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cur
 	cursor.order()
 	for _, img := range cursor.images {
 		id := rs.lastCursorID + 1
+		data := img.resData()
+		img.info.BytesInRes = uint32(len(data)) // the hot spot is included
 
 		binary.Write(b, binary.LittleEndian, cursorResDirEntry{
 			cursorInfo: img.info,
 			Id:         id,
 		})
 
-		if err := rs.Set(RT_CURSOR, ID(id), LCIDNeutral, img.resData()); err != nil {
+		if err := rs.Set(RT_CURSOR, ID(id), LCIDNeutral, data); err != nil {
 			return err
 		}
 	}
diff --git a/icon.go b/icon.go
index ac169ee..a98507c 100644
--- a/icon.go
+++ b/icon.go
@@ -230,6 +230,7 @@ func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon
 
 	for _, img := range icon.images {
 		id := rs.lastIconID + 1
+		img.info.BytesInRes = uint32(len(img.image))
 
 		binary.Write(b, binary.LittleEndian, iconResDirEntry{
 			iconInfo: img.info,
-- 
2.43.0


From e17d664d4df9dacce54872d9778f7203264bcc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 40/43] fix: keep a resource section that other data
 directories designate

---
 exe.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/exe.go b/exe.go
index d7a6670..827df80 100644
--- a/exe.go
+++ b/exe.go
@@ -459,6 +459,15 @@ func (pew *peWriter) requiresNewSection() bool {
 		return true
 	}
 	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + sizeInMemory(pew.rsrcHdr))
+	for i := range pew.h.dirs {
+		if i == pe.IMAGE_DIRECTORY_ENTRY_RESOURCE || i == pe.IMAGE_DIRECTORY_ENTRY_SECURITY {
+			continue
+		}
+		if pew.h.dirs[i].VirtualAddress >= pew.rsrcHdr.VirtualAddress && pew.h.dirs[i].VirtualAddress < endOfRSRC {
+			// The section holds something else than resources (UPX puts imports there, for example)
+			return true
+		}
+	}
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From 0a2cebe142911ff9f980a0a13144fd54b84ebb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 41/43] fix: load resource sections whose directories share
 tables

---
 rsrc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index 20bb5b4..5aeb8e8 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -484,6 +484,9 @@ type sectionReader struct {
 	copied    int             // size of all resource data copied
 }
 
+// maxSharedEntries is a number of directory entries that is always accepted, even if they are shared.
+const maxSharedEntries = 1 << 16
+
 type dirEntry struct {
 	path   string
 	ident  Identifier
@@ -546,8 +549,8 @@ func (de dirEntry) readDirTable(section *sectionReader) ([]dirEntry, error) {
 	}
 
 	section.entries += len(dir)
-	if section.entries > len(section.data)/sizeOfDirEntry {
-		// There would be more entries than the section can hold
+	if section.entries > maxSharedEntries && section.entries > len(section.data)/2 {
+		// Tables may be shared, but there would be far more entries than the section can hold
 		return nil, errors.New(errInvalidResDir)
 	}
 
-- 
2.43.0


From 865d7b5b903f5edee88305c54ee1bfc5b121425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 42/43] fix: refuse to save icons and cursors that need 4 GB or
 more

Offsets of images wrapped, so that they designated other bytes. A small file
whose entries share one image is enough.
---
 cursor.go | 8 ++++++++
 errors.go | 1 +
 icon.go   | 8 ++++++++
 3 files changed, 17 insertions(+)

diff --git a/cursor.go b/cursor.go
index 4dea161..6696e05 100644
--- a/cursor.go
+++ b/cursor.go
@@ -103,6 +103,14 @@ func (cursor *Cursor) SaveCUR(ico io.Writer) error {
 		return errors.New(errTooManyIconSizes)
 	}
 
+	fileSize := int64(sizeOfCursorDirHeader)
+	for i := range cursor.images {
+		fileSize += sizeOfCursorFileDirEntry + int64(len(cursor.images[i].image))
+	}
+	if fileSize > 0xFFFFFFFF {
+		return errors.New(errImagesTooBig)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &cursorDirHeader{
 		Type:  2,
 		Count: uint16(len(cursor.images)),
diff --git a/errors.go b/errors.go
index 5756d26..a9eea80 100644
--- a/errors.go
+++ b/errors.go
@@ -14,6 +14,7 @@ const (
 	errNotICO                 = "not a valid ICO file"
 	errImageLengthTooBig      = "image size found in ICONDIRENTRY is too big (above 10 MB)"
 	errTooManyIconSizes       = "too many sizes"
+	errImagesTooBig           = "images are too big, offsets must fit in 32 bits"
 	errGroupNotFound          = "group does not exist"
 	errInvalidGroup           = "invalid group"
 	errIconMissing            = "icon missing from group"
diff --git a/icon.go b/icon.go
index a98507c..fd430a1 100644
--- a/icon.go
+++ b/icon.go
@@ -158,6 +158,14 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 		return errors.New(errTooManyIconSizes)
 	}
 
+	fileSize := int64(sizeOfIconDirHeader)
+	for i := range icon.images {
+		fileSize += sizeOfIconFileDirEntry + int64(len(icon.images[i].image))
+	}
+	if fileSize > 0xFFFFFFFF {
+		return errors.New(errImagesTooBig)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
 		Type:  1,
 		Count: uint16(len(icon.images)),
-- 
2.43.0


From b6d71279db2e9e081219fcaaa5389f70f166ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 43/43] fix: refuse to store cursors that need 4 GB or more

Images of a loaded cursor may share memory, but each resource was a copy: a
file of 1 MB could require gigabytes, for resources that cannot be written.
---
 cursor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cursor.go b/cursor.go
index 6696e05..0fb4566 100644
--- a/cursor.go
+++ b/cursor.go
@@ -163,6 +163,15 @@ func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cur
 		return err
 	}
 
+	// Images may share memory, but each resource is a copy: do not make what could never be written.
+	size := int64(0)
+	for i := range cursor.images {
+		size += int64(len(cursor.images[i].image))
+	}
+	if size > 0xFFFFFFFF {
+		return errors.New(errResourcesTooBig)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
-- 
2.43.0

