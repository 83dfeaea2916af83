From 3c1771fa9602bb825942740490e753ad7bd92754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:55 +0000
Subject: [PATCH 01/63] fix: text colour lost when the channels sum to a
 multiple of 256 or are all zero

---
 content_text.go                 | 2 +-
 minigopdf/cache_content_text.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/content_text.go b/content_text.go
index e236813..893f266 100644
--- a/content_text.go
+++ b/content_text.go
@@ -47,7 +47,7 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 	}
 
 	var rgb gopdf.Rgb
-	if c.fontColor != nil {
+	if c.fontColor != nil && (c.fontColor.R != 0 || c.fontColor.G != 0 || c.fontColor.B != 0) {
 		rgb.SetR(uint8(c.fontColor.R))
 		rgb.SetG(uint8(c.fontColor.G))
 		rgb.SetB(uint8(c.fontColor.B))
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..6989485 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -129,7 +129,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if r != 0 || g != 0 || b != 0 {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
-- 
2.43.0


From a010340ef8e5acda86fe7079b984532b399173fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:37 +0000
Subject: [PATCH 02/63] fix: page content that starts with white space was
 shifted when text was added

---
 pdf_data.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..e781b29 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -544,13 +544,36 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
+// streamStart index of the first byte of stream data: after the keyword and its end of line
+func streamStart(b []byte) int {
+	index := bytes.Index(b, extractStreamBytes)
+	if index < 0 {
+		return -1
+	}
+	start := index + len(extractStreamBytes)
+	eol := start
+	for eol < len(b) && (b[eol] == ' ' || b[eol] == '\t') {
+		eol++
+	}
+	if eol < len(b) && b[eol] == '\r' {
+		if eol+1 < len(b) && b[eol+1] == '\n' {
+			eol++
+		}
+		return eol + 1
+	}
+	if eol < len(b) && b[eol] == '\n' {
+		return eol + 1
+	}
+	return start
+}
+
 func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 
-	index := bytes.Index(*b, extractStreamBytes)
-	offset := len(extractStreamBytes)
-	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
-	tmp = tmp[0:length]
+	start := streamStart(*b)
+	if start < 0 || length < 0 || start+length > len(*b) {
+		return nil, errors.New("bad stream length")
+	}
+	tmp := (*b)[start : start+length]
 	var buff bytes.Buffer
 	buff.Write(tmp)
 	if !zip {
-- 
2.43.0


From 7f7b080cc3b6dc85c9ab4ae75bb48570396c4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:40 +0000
Subject: [PATCH 03/63] fix: items added to a page with several content streams
 were placed before the later streams

---
 pdf_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index e781b29..1dfb660 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -463,7 +463,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				if err != nil || len(contentsObjIDs) <= 0 {
 					return err
 				}
-				contentsObjID = contentsObjIDs[0]
+				contentsObjID = contentsObjIDs[len(contentsObjIDs)-1] //after all the original content
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
-- 
2.43.0


From bf0335b649720424305eb91236db9283167cff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:32 +0000
Subject: [PATCH 04/63] fix: items added to a page also appeared on other pages
 that share its content object

---
 pdf_data.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 pdft.go     |  2 +-
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 1dfb660..ac6e51c 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -426,6 +426,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 		}
 	}
 	pageObjIDs, _ := p.getPageObjIDs()
+	contentsUsed := p.countContentsUsed(pageObjIDs)
 	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
 
@@ -494,7 +495,15 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			if _, ok := pageBuffs[pageIndex+1]; ok {
 				stm.WriteString("\n")
 				pageBuffs[pageIndex+1].WriteTo(stm)
-				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
+				newContents := fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
+				if contentsUsed[contentsObjID] > 1 { //other pages show the same object, they must not change
+					err = p.replaceLastContents(pageObjID, p.putNewObject(PDFObjData{data: []byte(newContents)}))
+					if err != nil {
+						return err
+					}
+				} else {
+					objMustReplaces[contentsObjID] = newContents
+				}
 			}
 
 		}
@@ -510,6 +519,47 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	return nil
 }
 
+// countContentsUsed how many times each content object is shown by the pages
+func (p *PDFData) countContentsUsed(pageObjIDs []int) map[int]int {
+	used := make(map[int]int)
+	for _, pageObjID := range pageObjIDs {
+		prop, err := readProperty(&p.getObjByID(pageObjID).data, "Contents")
+		if err != nil || prop == nil {
+			continue
+		}
+		ids, _, err := prop.asDictionaryArr()
+		if err != nil {
+			continue
+		}
+		for _, id := range ids {
+			used[id]++
+		}
+	}
+	return used
+}
+
+// replaceLastContents let the page show another object as its last content
+func (p *PDFData) replaceLastContents(pageObjID int, contentsObjID int) error {
+	pageObj := p.getObjByID(pageObjID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	prop := props.getPropByKey("Contents")
+	if prop.valType() == array {
+		ids, revisions, err := prop.asDictionaryArr()
+		if err != nil {
+			return err
+		}
+		ids[len(ids)-1] = contentsObjID
+		prop.setAsDictionaryArr(ids, revisions)
+	} else {
+		prop.setAsDictionary(contentsObjID, 0)
+	}
+	pageObj.setProperties(props)
+	return nil
+}
+
 func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 	prop, err := readProperty(data, "Length")
diff --git a/pdft.go b/pdft.go
index ebbb481..5cb5f4d 100644
--- a/pdft.go
+++ b/pdft.go
@@ -671,7 +671,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	return &newpdf, nextID, nil
+	return &newpdf, newpdf.maxID(), nil
 }
 
 func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
-- 
2.43.0


From fa737728e550aed1bfd4cc685f0990625d13179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:42 +0000
Subject: [PATCH 05/63] fix: saving a document twice duplicated the added
 content and the font objects

---
 pdf_font_data.go | 7 +++++++
 pdft.go          | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/pdf_font_data.go b/pdf_font_data.go
index ce7d668..13231ba 100644
--- a/pdf_font_data.go
+++ b/pdf_font_data.go
@@ -88,6 +88,13 @@ func (p *PDFFontData) build() (int, error) {
 	//dictionary
 	p.dictionary.SetPtrToSubsetFontObj(&p.font)
 
+	//clear what an earlier build left
+	p.font.GetObjBuff().Reset()
+	p.cid.GetObjBuff().Reset()
+	p.unicodeMap.GetObjBuff().Reset()
+	p.fontDesc.GetObjBuff().Reset()
+	p.dictionary.GetObjBuff().Reset()
+
 	var err error
 	err = p.font.Build(p.fontID)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index 5cb5f4d..8ba7e03 100644
--- a/pdft.go
+++ b/pdft.go
@@ -608,6 +608,8 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	}
 
 	newpdf := i.pdf //copy
+	newpdf.objIDs = append([]int(nil), i.pdf.objIDs...)
+	newpdf.objs = append([]PDFObjData(nil), i.pdf.objs...)
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
-- 
2.43.0


From 0f87cf29b5c60f0f62056bfe2b32160622756e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:15 +0000
Subject: [PATCH 06/63] fix: setting a protection wrote into the spare capacity
 of the caller's password slices

---
 minigopdf/pdf_protection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..f3175e0 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,9 +50,9 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
+	userPass = append(append([]byte(nil), userPass...), protectionPadding...)
 	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
+	ownerPass = append(append([]byte(nil), ownerPass...), protectionPadding...)
 	ownerPassWithPadding := ownerPass[0:32]
 
 	//oValue
-- 
2.43.0


From 71f75752424835e041804de48ae52b260b0ee395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:56 +0000
Subject: [PATCH 07/63] fix: protecting a document damaged streams that start
 or end with a line break and panicked on objects that mention the stream
 keyword

---
 pdf_obj_data.go | 45 +++++++++++++++++++++------------------------
 pdft.go         |  5 ++++-
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..acdb8ce 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -64,33 +64,30 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	p.data = data.Bytes()
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, pdf *PDFData) error {
 
-	stream := []byte("stream")
 	endstream := []byte("endstream")
-	start := bytes.Index(p.data, stream)
-	if start != -1 {
-		end := bytes.LastIndex(p.data, endstream)
-
-		var head, body bytes.Buffer
-		head.Write(p.data[0:start])
-		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
-		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
-		if err != nil {
-			return err
-		}
-
-		var data bytes.Buffer
-		data.Write(head.Bytes())
-		data.Write(stream)
-		data.WriteString("\n")
-		data.Write(bodyRc4)
-		data.WriteString("\n")
-		data.Write(endstream)
-		p.data = data.Bytes()
+	start := streamStart(p.data)
+	end := bytes.LastIndex(p.data, endstream)
+	if start == -1 || end < start {
+		return nil //not a stream
 	}
+
+	length, err := streamLength(pdf, &p.data)
+	if err != nil || length < 0 || start+length > end {
+		length = len(bytes.TrimRight(p.data[start:end], "\r\n")) //no usable /Length
+	}
+	bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), p.data[start:start+length])
+	if err != nil {
+		return err
+	}
+
+	var data bytes.Buffer
+	data.Write(p.data[0:start])
+	data.Write(bodyRc4)
+	data.WriteString("\n")
+	data.Write(endstream)
+	p.data = data.Bytes()
 	return nil
 }
 
diff --git a/pdft.go b/pdft.go
index 8ba7e03..c935eb7 100644
--- a/pdft.go
+++ b/pdft.go
@@ -668,7 +668,10 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			err = newpdf.objs[x].encrypt(i.protection(), &newpdf)
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
-- 
2.43.0


From 603f27694a89c6cb3d90a41ae94e362d204cfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 08/63] fix: RemoveOtherPages kept the page after the one asked
 for

---
 pdft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index c935eb7..76ccba1 100644
--- a/pdft.go
+++ b/pdft.go
@@ -180,7 +180,7 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From 643f4dc06756a766d8b1902c76ed57bd884fb7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 09/63] fix: page operations panicked on page numbers and
 positions that do not exist

---
 pdft.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdft.go b/pdft.go
index 76ccba1..ebf2d45 100644
--- a/pdft.go
+++ b/pdft.go
@@ -121,7 +121,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || position >= len(pageObjIds) {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -145,9 +151,6 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -161,7 +164,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,7 +179,7 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-- 
2.43.0


From 2bbe624e41f737909b18da71816b78d3208ed8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 10/63] fix: a page with several content streams could not be
 duplicated

---
 pdft.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pdft.go b/pdft.go
index ebf2d45..d275310 100644
--- a/pdft.go
+++ b/pdft.go
@@ -141,12 +141,23 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if pageContent == nil {
 		return ErrNoContentsProperty
 	}
-	contentID, _, err := pageContent.asDictionary()
-	if err != nil {
-		return err
+	if pageContent.valType() == array {
+		contentIDs, revisions, err := pageContent.asDictionaryArr()
+		if err != nil {
+			return err
+		}
+		for n, contentID := range contentIDs {
+			contentIDs[n] = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
+		}
+		pageContent.setAsDictionaryArr(contentIDs, revisions)
+	} else {
+		contentID, _, err := pageContent.asDictionary()
+		if err != nil {
+			return err
+		}
+		contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
+		pageContent.setAsDictionary(contentID, 0)
 	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-	pageContent.setAsDictionary(contentID, 0)
 	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
-- 
2.43.0


From 0a977a39b1291c66273a4b5ec7af3100e9e1110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:40 +0000
Subject: [PATCH 11/63] fix: page operations on a nested page tree left pages
 with a parent that does not list them

---
 pdf_data.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 pdft.go     |  6 ++++++
 2 files changed, 68 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index ac6e51c..9374e30 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -149,6 +149,68 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	return results, nil
 }
 
+// inheritableProps page properties that may be given by a node above the page
+var inheritableProps = []string{"Resources", "MediaBox", "CropBox", "Rotate"}
+
+// inheritedProp property of a page or of the nearest node above it
+func (p *PDFData) inheritedProp(objID int, key string) *PDFObjPropertyData {
+	visited := make(map[int]bool)
+	for !visited[objID] {
+		visited[objID] = true
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			return nil
+		}
+		props, err := obj.readProperties()
+		if err != nil {
+			return nil
+		}
+		if prop := props.getPropByKey(key); prop != nil {
+			return prop
+		}
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			return nil
+		}
+		objID, _, err = parent.asDictionary()
+		if err != nil {
+			return nil
+		}
+	}
+	return nil
+}
+
+// setPageParent move a page directly under pagesObjID
+func (p *PDFData) setPageParent(pageObjID int, pagesObjID int) error {
+	pageObj := p.getObjByID(pageObjID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	parent := props.getPropByKey("Parent")
+	if parent == nil {
+		return nil
+	}
+	parentID, _, err := parent.asDictionary()
+	if err != nil {
+		return err
+	}
+	if parentID == pagesObjID {
+		return nil
+	}
+	for _, key := range inheritableProps {
+		if props.getPropByKey(key) != nil {
+			continue
+		}
+		if prop := p.inheritedProp(pageObjID, key); prop != nil {
+			props.append(*prop)
+		}
+	}
+	props.getPropByKey("Parent").setAsDictionary(pagesObjID, 0)
+	pageObj.setProperties(props)
+	return nil
+}
+
 func (p *PDFData) maxID() int {
 	max := 0
 	for _, id := range p.objIDs {
diff --git a/pdft.go b/pdft.go
index d275310..f5452c0 100644
--- a/pdft.go
+++ b/pdft.go
@@ -211,6 +211,12 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	if err != nil {
 		return err
 	}
+	for _, pageObjID := range pageObjIds {
+		err = i.pdf.setPageParent(pageObjID, rootPagesID)
+		if err != nil {
+			return err
+		}
+	}
 	nPage := len(pageObjIds)
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
-- 
2.43.0


From 7761d354d2c0991468d634a90dfa7fc7fb901e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:44 +0000
Subject: [PATCH 12/63] fix: after page operations items were placed by the
 height of another page

---
 pdft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index f5452c0..c84d0ac 100644
--- a/pdft.go
+++ b/pdft.go
@@ -221,7 +221,7 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
-	return nil
+	return parsePageSize(&i.pdf)
 }
 
 // GetNumberOfPage get number of page
-- 
2.43.0


From 7d50371a21d68cef3b6f901cb49450903fc051c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:53 +0000
Subject: [PATCH 13/63] fix: pages two or more levels below the root of the
 page tree did not get the added fonts and images

---
 pdf_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 9374e30..0702d6a 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -93,10 +93,10 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 			subCw.set(p, key, path...)
 			subCw.run()
 			for k, v := range subCw.results {
-				cw.results[k] = v
 				if _, ok := cw.results[k]; !ok {
 					checkedQueue = append(checkedQueue, k)
 				}
+				cw.results[k] = v
 			}
 		}
 		checkedQueue = checkedQueue[1:]
-- 
2.43.0


From bdae969f6fb33bcc6950c7d0a6c2e15550466ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 14/63] fix: adding text renamed the fonts of the template or
 failed when one has a name without a number

---
 crawl_result_font.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crawl_result_font.go b/crawl_result_font.go
index 23ece59..08949ab 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -39,17 +39,12 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 	for _, prop := range props {
 		var crFont crawlResultFont
 
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
-			return err
+		_, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
+		if err == nil { //a name without index is no obstacle to new ones
+			crFont.fontIndex = fontIndex
 		}
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return err
-		}
-		crFont.prefix = prefix
-		crFont.fontIndex = fontIndex
-		crFont.fontObjID = objID
+		crFont.name = prop.key
+		crFont.rawVal = prop.rawVal
 		*c = append(*c, crFont)
 	}
 	return nil
@@ -58,7 +53,7 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 func (c *crawlResultFonts) String() string {
 	var buff bytes.Buffer
 	for _, f := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
+		buff.WriteString(fmt.Sprintf("/%s %s\n", f.name, f.rawVal))
 	}
 	return buff.String()
 }
@@ -66,8 +61,8 @@ func (c *crawlResultFonts) String() string {
 func (c *crawlResultFonts) append(fontIndex int, fontObjID int) {
 	var crFont crawlResultFont
 	crFont.fontIndex = fontIndex
-	crFont.fontObjID = fontObjID
-	crFont.prefix = "F"
+	crFont.name = fmt.Sprintf("F%d", fontIndex)
+	crFont.rawVal = fmt.Sprintf("%d 0 R", fontObjID)
 	*c = append(*c, crFont)
 }
 
@@ -83,6 +78,6 @@ func (c *crawlResultFonts) maxFontIndex() int {
 
 type crawlResultFont struct {
 	fontIndex int
-	fontObjID int
-	prefix    string
+	name      string
+	rawVal    string
 }
-- 
2.43.0


From 177e642383181c41da78596a482246bc1b275971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 15/63] fix: added images were missing, renamed or replaced
 existing ones depending on how the template stores its XObject resources

---
 crawl_result_x_object.go |  51 +++++----
 pdf_data.go              | 230 +++++++++++++++------------------------
 2 files changed, 114 insertions(+), 167 deletions(-)

diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
index ca895a0..18da912 100644
--- a/crawl_result_x_object.go
+++ b/crawl_result_x_object.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
-	"strings"
 )
 
 type crawlResultXObjects []crawlResultXObject
@@ -20,26 +19,16 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 	}
 
 	for _, prop := range props {
-		//fmt.Printf("\t %#v\n", prop)
-		tokens := regSplit.FindStringSubmatch(prop.key)
-		if len(tokens) < 3 {
-			continue
-		}
-
 		var xObj crawlResultXObject
-		xObj.xObjChar = tokens[1]
-		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
-		}
-		xObj.xObjIndex = xObjIndex
-
-		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
-		if err != nil {
-			return err
+		xObj.name = prop.key
+		xObj.rawVal = prop.rawVal
+		tokens := regSplit.FindStringSubmatch(prop.key)
+		if len(tokens) == 3 {
+			xObjIndex, err := strconv.Atoi(tokens[2])
+			if err == nil { //a name without index is no obstacle to new ones
+				xObj.xObjIndex = xObjIndex
+			}
 		}
-
-		xObj.xObjObjID = xObjObjID
 		*c = append(*c, xObj)
 	}
 
@@ -49,13 +38,31 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 func (c *crawlResultXObjects) String() string {
 	var buff bytes.Buffer
 	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
+		buff.WriteString(fmt.Sprintf("/%s %s\n", xObj.name, xObj.rawVal))
 	}
 	return buff.String()
 }
 
+func (c *crawlResultXObjects) append(xObjChar string, xObjIndex int, xObjObjID int) {
+	var xObj crawlResultXObject
+	xObj.xObjIndex = xObjIndex
+	xObj.name = fmt.Sprintf("%s%d", xObjChar, xObjIndex)
+	xObj.rawVal = fmt.Sprintf("%d 0 R", xObjObjID)
+	*c = append(*c, xObj)
+}
+
+func (c *crawlResultXObjects) maxXObjIndex() int {
+	max := 0
+	for _, xObj := range *c {
+		if xObj.xObjIndex > max {
+			max = xObj.xObjIndex
+		}
+	}
+	return max
+}
+
 type crawlResultXObject struct {
-	xObjChar  string
 	xObjIndex int
-	xObjObjID int
+	name      string
+	rawVal    string
 }
diff --git a/pdf_data.go b/pdf_data.go
index 0702d6a..fbd8cdc 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -222,182 +222,122 @@ func (p *PDFData) maxID() int {
 }
 
 func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
-	var err error
-	isEmbedResources := false
-	rootOfXObjectID := -1
-	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
-	foundRes := false
-	for resID, r := range cwRes.results {
-		resources, err := r.valOf("Resources")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			foundRes = true
-			resourcesID, _, err := readObjIDFromDictionary(resources)
-			if err == ErrorObjectIDNotFound {
-				rootOfXObjectID = resID
-				resourcesContent = resources
-				isEmbedResources = true
-			} else if err != nil {
-				return err
-			} else {
-				rootOfXObjectID = resourcesID
-				data := p.getObjByID(resourcesID)
-				if data != nil {
-					resourcesContent = string(data.data)
-				}
-				isEmbedResources = false
-			}
-			break
-		}
+	if len(pdfImgs) == 0 {
+		return nil
 	}
-
-	if !foundRes {
-		return errors.New("not found /Resources in /Type/Pages")
+	err := p.ensurePageResources("XObject")
+	if err != nil {
+		return err
 	}
-
-	var cw crawl
-	//cw.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources", "XObject")
-	cw.set(p, rootOfXObjectID, "XObject")
-	err = cw.run()
+	cw, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
 	if err != nil {
 		return err
 	}
 
-	found := false
-	xObjectVals := make(map[int]string)
+	//all the dictionaries that must know the new images
+	inlines := make(map[int]crawlResultXObjects)
+	refs := make(map[int]crawlResultXObjects)
+	xObjIndex := 0
 	for objID, r := range cw.results {
-		xobject, err := r.valOf("XObject")
+		val, err := r.valOf("XObject")
 		if err == ErrCrawlResultValOfNotFound {
 			continue
 		} else if err != nil {
 			return err
-		} else {
-			xObjectVals[objID] = xobject
-			found = true
 		}
-	}
 
-	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
+		var xobjs crawlResultXObjects
+		if propertyType(val) == object {
+			data := []byte(val)
+			err = xobjs.parse(&data)
+			inlines[objID] = xobjs
+		} else {
+			var xobjsID int
+			xobjsID, _, err = readObjIDFromDictionary(val)
+			if err != nil {
+				return err
+			}
+			err = xobjs.parse(&p.getObjByID(xobjsID).data)
+			refs[xobjsID] = xobjs
+		}
 		if err != nil {
 			return err
 		}
-		for objID, r := range cw.results {
-			xobject, err := r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			} else {
-				xObjectVals[objID] = xobject
-				found = true
-			}
+		if max := xobjs.maxXObjIndex(); max > xObjIndex {
+			xObjIndex = max
 		}
 	}
 
-	var xobjs crawlResultXObjects
-	var xObjIndex int
-	xObjChar := "I"
-	if found {
-		for _, xObjectVal := range xObjectVals {
-			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
-			}
-		}
+	var newXObjs crawlResultXObjects
+	for _, pdfImg := range pdfImgs {
+		xObjIndex++
+		pdfImg.xObjChar = "I"
+		pdfImg.xObjIndex = xObjIndex
+		newXObjs.append(pdfImg.xObjChar, pdfImg.xObjIndex, pdfImg.objID)
 	}
 
-	i := 0
-	max := len(pdfImgs)
-	for i < max {
-		objID := pdfImgs[i].objID
-		pdfImgs[i].xObjChar = xObjChar
-		pdfImgs[i].xObjIndex = xObjIndex + i + 1
-
-		var xobj crawlResultXObject
-		xobj.xObjChar = xObjChar
-		xobj.xObjIndex = xObjIndex + i + 1
-		xobj.xObjObjID = objID
-		xobjs = append(xobjs, xobj)
-		i++
+	for objID, xobjs := range inlines {
+		xobjs = append(xobjs, newXObjs...)
+		r := cw.results[objID]
+		r.setValOf("XObject", "<<\n"+xobjs.String()+">>\n")
+		p.getObjByID(objID).data = []byte("<<\n" + r.String() + ">>\n")
 	}
+	for objID, xobjs := range refs {
+		xobjs = append(xobjs, newXObjs...)
+		p.getObjByID(objID).data = []byte("<<\n" + xobjs.String() + ">>\n")
+	}
+	return nil
+}
 
-	objMustReplaces := make(map[int]string)
-	if found {
-		for objID, r := range cw.results {
-			var oldXObjectStr string
-			oldXObjectStr, err = r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			}
-			var newXObjs crawlResultXObjects
-			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
-			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
-				isExisted := false
-				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
-						isExisted = true
-						break
-					}
-				}
-				if !isExisted {
-					newXObjs = append(newXObjs, xobj)
-				}
+// ensurePageResources let the resources of every page have a dictionary of this kind
+func (p *PDFData) ensurePageResources(kind string) error {
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
+	for _, pageObjID := range pageObjIDs {
+		pageObj := p.getObjByID(pageObjID)
+		pageProps, err := pageObj.readProperties()
+		if err != nil {
+			return err
+		}
+		resources := pageProps.getPropByKey("Resources")
+		if resources == nil {
+			own := PDFObjPropertyData{key: "Resources", rawVal: "<<>>"}
+			if inherited := p.inheritedProp(pageObjID, "Resources"); inherited != nil {
+				own.rawVal = inherited.rawVal
 			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
-			objMustReplaces[objID] = r.String()
+			pageProps.append(own)
+			pageObj.setProperties(pageProps)
+			resources = pageProps.getPropByKey("Resources")
 		}
-	} else {
-		if isEmbedResources {
-			var cw01 crawl
-			cw01.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources")
-			err = cw01.run()
+
+		resourcesObj := &PDFObjData{data: []byte(resources.rawVal)}
+		inline := resources.valType() == object
+		if !inline {
+			resourcesID, _, err := resources.asDictionary()
 			if err != nil {
 				return err
 			}
-			for objID, r := range cw01.results {
-				res, err := r.valOf("Resources")
-				if err == ErrCrawlResultValOfNotFound {
-					continue
-				} else if err != nil {
-					return err
-				} else {
-					res = strings.TrimSpace(res)
-					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
-					objMustReplaces[objID] = r.String()
-				}
-			}
-		} else {
-			for objID, r := range cw.results {
-				res := strings.TrimSpace(resourcesContent)
-				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
-				objMustReplaces[objID] = r.String()
-				//fmt.Printf("%s\n", r.String())
+			resourcesObj = p.getObjByID(resourcesID)
+			if resourcesObj == nil {
+				return ErrorObjectIDNotFound
 			}
 		}
+		props, err := resourcesObj.readProperties()
+		if err != nil {
+			return err
+		}
+		if props.getPropByKey(kind) != nil {
+			continue
+		}
+		props.append(PDFObjPropertyData{key: kind, rawVal: "<<>>"})
+		resourcesObj.setProperties(props)
+		if inline {
+			resources.setRaw(strings.TrimSpace(string(resourcesObj.data)))
+			pageObj.setProperties(pageProps)
+		}
 	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 3f850668eb2e0b5166ae99dbf211f075c0b9c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 16/63] fix: text on pages without own font resources was drawn
 with no font, and saving failed without resources

---
 pdf_data.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index fbd8cdc..a1550a2 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -342,8 +342,14 @@ func (p *PDFData) ensurePageResources(kind string) error {
 }
 
 func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
+	if len(fontDatas) == 0 {
+		return nil
+	}
+	err := p.ensurePageResources("Font")
+	if err != nil {
+		return err
+	}
+	cw, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4cea8c5a28ba7059eec54e36c33f6e701b4f328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 17/63] fix: opening panicked when a page inherits its size,
 and a size in an object of its own was ignored

---
 pdf_parse.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..6098be6 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -53,10 +53,18 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
-		if err != nil {
-			return err
+		propContentsObj := pdf.inheritedProp(pageID, "MediaBox")
+		if propContentsObj == nil {
+			continue
+		}
+		if propContentsObj.valType() == dictionary { //in an object of its own
+			boxID, _, err := propContentsObj.asDictionary()
+			if err != nil {
+				return err
+			}
+			if boxObj := pdf.getObjByID(boxID); boxObj != nil {
+				propContentsObj.setRaw(string(boxObj.data))
+			}
 		}
 		valType := propContentsObj.valType()
 		if valType != array {
@@ -67,6 +75,9 @@ func parsePageSize(pdf *PDFData) error {
 		if err != nil {
 			return err
 		}
+		if len(parseMediaBoxd) < 4 {
+			continue
+		}
 		pdf.pageSizes[n] = parseMediaBoxd
 	}
 	return nil
-- 
2.43.0


From ce6aacda86867efc3b5cababa4c711a9ba0caae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 18/63] fix: cell borders on other pages than the first were
 drawn as thick solid lines

---
 content_text.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/content_text.go b/content_text.go
index 893f266..0692535 100644
--- a/content_text.go
+++ b/content_text.go
@@ -88,6 +88,16 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 	}
 	buff.Write([]byte("\r\n"))
 
+	if border != 0 { //the page may not have the line style yet
+		style := ContentLineStyle{width: c.lineWidth, lineType: "dotted"}
+		styled, err := style.toSteram()
+		if err != nil {
+			return nil, err
+		}
+		styled.Write(buff.Bytes())
+		return styled, nil
+	}
+
 	return buff, nil
 }
 
-- 
2.43.0


From f7f05d0e3034bae8e565ccd91582b7a1a3990782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 19/63] fix: wrapped text had empty lines where a word or a
 space does not fit in the width

---
 pdft.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pdft.go b/pdft.go
index c84d0ac..6006e84 100644
--- a/pdft.go
+++ b/pdft.go
@@ -269,24 +269,27 @@ func (i *PDFt) InsertWrapText(text string,
 			return err
 		}
 		if width > w {
-			renderCaches = append(renderCaches, cacheWrapTextRender{
-				text:      strings.TrimSpace(prevText),
-				pageNum:   pageNum,
-				x:         x,
-				y:         currentY,
-				w:         w,
-				h:         h,
-				align:     align,
-				fontColor: fontColor,
-			})
-			currentY += fontSize + newLine
+			if line := strings.TrimSpace(prevText); line != "" {
+				renderCaches = append(renderCaches, cacheWrapTextRender{
+					text:      line,
+					pageNum:   pageNum,
+					x:         x,
+					y:         currentY,
+					w:         w,
+					h:         h,
+					align:     align,
+					fontColor: fontColor,
+				})
+				currentY += fontSize + newLine
+			}
 			currText = token
 		}
 		prevText = currText
 	}
-	if currText != "" {
+	line := strings.TrimSpace(prevText)
+	if line != "" || (currText != "" && len(renderCaches) == 0) {
 		renderCaches = append(renderCaches, cacheWrapTextRender{
-			text:      strings.TrimSpace(prevText),
+			text:      line,
 			pageNum:   pageNum,
 			x:         x,
 			y:         currentY,
-- 
2.43.0


From 2dffd05cc6148f7ad4f470cc16078da047fb5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 20/63] fix: measuring or wrapping text before a font is chosen
 panicked

---
 pdft.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 6006e84..24fcfd6 100644
--- a/pdft.go
+++ b/pdft.go
@@ -343,7 +343,6 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -355,6 +354,10 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return 0, err
+	}
 	width, err := ct.measureTextWidth()
 	return width, err
 }
-- 
2.43.0


From 5d9b1d3adb3a90840a78815edb6b73caed1a507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 21/63] fix: the last character of each cmap format 12 group
 was not found

---
 minigopdf/subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..1bc87be 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -186,7 +186,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
-- 
2.43.0


From 77e37d42fbfa4de7b113dda123346dcc484de938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 22/63] fix: a text refused for a missing glyph was written
 into the page as broken content

---
 pdft.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 24fcfd6..8d8f8a1 100644
--- a/pdft.go
+++ b/pdft.go
@@ -337,8 +337,12 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
-- 
2.43.0


From c3807747e7ed05069a67406d9f774b2a5fcb0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 23/63] fix: the text rise of a text stayed in effect for later
 texts in other fonts

---
 minigopdf/cache_content_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 6989485..19aefdb 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -291,6 +291,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		runeIndex++
 	}
 	out.WriteString(">] TJ\n")
+	if f.funcTextriseOverride != nil { //the rise would stay in effect for the texts that follow
+		out.WriteString("0 Ts\n")
+	}
 
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
-- 
2.43.0


From 84b5fe1845358593dc7e5434ed2355e397f3d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 24/63] fix: changing a color after inserting a text changed
 the color of that text

---
 pdft.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 8d8f8a1..a527174 100644
--- a/pdft.go
+++ b/pdft.go
@@ -320,7 +320,10 @@ func (i *PDFt) InsertWrapText(text string,
 func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *FontColor) error {
 	var ct ContentText
 	ct.text = text
-	ct.fontColor = fontColor
+	if fontColor != nil { //the caller may change the color later
+		color := *fontColor
+		ct.fontColor = &color
+	}
 	ct.fontName = i.curr.fontName
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
-- 
2.43.0


From 16bc51cef4367b76c516f873ac5305a3a336debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:19 +0000
Subject: [PATCH 25/63] fix: components of composite glyphs that are composite
 themselves were missing from the embedded font

---
 minigopdf/pdf_dictionary_obj.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..2d24ad1 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -265,11 +265,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	//the array grows: a component may be made of components itself
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
-- 
2.43.0


From 4642d0a4cc0e038be256f97f0a886a5e7f5252f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:25 +0000
Subject: [PATCH 26/63] fix: glyphs were missing from the embedded font when
 two characters share a glyph

---
 minigopdf/pdf_dictionary_obj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 2d24ad1..606c63c 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -255,7 +255,12 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	//copy
 	isContainZero := false
 	glyphs := mapOfglyphs.AllVals()
+	added := make(map[uint]bool)
 	for _, v := range glyphs {
+		if added[v] { //characters may share a glyph
+			continue
+		}
+		added[v] = true
 		glyphArray = append(glyphArray, int(v))
 		if v == 0 {
 			isContainZero = true
-- 
2.43.0


From 3b3090bab6b88503dde56439df046696a535a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:55 +0000
Subject: [PATCH 27/63] fix: the code space in the ToUnicode map left out
 glyphs, and was malformed for an unused font

---
 minigopdf/unicode_map.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..ee1bcd5 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -59,19 +59,10 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
-
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -79,7 +70,7 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	var buff bytes.Buffer
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	buff.WriteString(fmt.Sprintf("<%04X><%04X>\n", lowIndex, hiIndex))
+	buff.WriteString("<0000><FFFF>\n") //a range is one of bytes, it can not start and end at any glyph
 	buff.WriteString("endcodespacerange\n")
 	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
-- 
2.43.0


From 2d5118edba399efc1420c9f3a595edb497d094f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:01 +0000
Subject: [PATCH 28/63] fix: characters beyond U+FFFF were not in UTF-16 in the
 ToUnicode map

---
 minigopdf/unicode_map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index ee1bcd5..221867c 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -76,7 +77,11 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
+		buff.WriteString(fmt.Sprintf("<%04X><%04X><", k, k))
+		for _, c := range utf16.Encode([]rune{v}) {
+			buff.WriteString(fmt.Sprintf("%04X", c))
+		}
+		buff.WriteString(">\n")
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From 95ce25ad8a293fa37eed66522adad066e82e011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:06 +0000
Subject: [PATCH 29/63] fix: the ToUnicode map had blocks of more than 100
 entries

---
 minigopdf/unicode_map.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 221867c..de968ba 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -6,6 +6,9 @@ import (
 	"unicode/utf16"
 )
 
+// maxBfRange is how many entries a block of a CMap may have
+const maxBfRange = 100
+
 // UnicodeMap unicode map
 type UnicodeMap struct {
 	buffer             bytes.Buffer
@@ -73,17 +76,25 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	buff.WriteString("1 begincodespacerange\n")
 	buff.WriteString("<0000><FFFF>\n") //a range is one of bytes, it can not start and end at any glyph
 	buff.WriteString("endcodespacerange\n")
-	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
+	for i, k := range indexs {
+		if i%maxBfRange == 0 {
+			count := len(indexs) - i
+			if count > maxBfRange {
+				count = maxBfRange
+			}
+			buff.WriteString(fmt.Sprintf("%d beginbfrange\n", count))
+		}
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
 		buff.WriteString(fmt.Sprintf("<%04X><%04X><", k, k))
 		for _, c := range utf16.Encode([]rune{v}) {
 			buff.WriteString(fmt.Sprintf("%04X", c))
 		}
 		buff.WriteString(">\n")
+		if (i+1)%maxBfRange == 0 || i+1 == len(indexs) {
+			buff.WriteString("endbfrange\n")
+		}
 	}
-	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From a38cd8efda3d4a6bf01971b2174f401ef4ee2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 30/63] fix: PNG images whose size or chunk length needs more
 than 15 bits

---
 minigopdf/image_obj_parse.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..3bfebc4 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -416,13 +416,7 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
-	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
-- 
2.43.0


From 89170836f8060873eec6739bc90a00ac816f6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 31/63] fix: an empty chunk does not end a PNG image

---
 minigopdf/image_obj_parse.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 3bfebc4..95e8c2b 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -284,10 +284,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
-- 
2.43.0


From 5a02eb9cd502e43da4f2b0cd646b6b2ddd81af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 32/63] fix: refuse truncated PNG images

---
 minigopdf/image_obj_parse.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 95e8c2b..ad46a40 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -248,6 +249,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && len(t) < 2) || (ct[0] == 2 && len(t) < 6) {
+				return errors.New("Incorrect PNG file")
+			}
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -321,6 +325,14 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
+		lineLength := 1 + 4*w
+		if ct[0] == 4 {
+			lineLength = 1 + 2*w
+		}
+		if len(afterZipData)/lineLength < h {
+			return errors.New("Incorrect PNG file")
+		}
+
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
@@ -416,8 +428,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0c3d2cfd55dfd4a98a5e476eec1cf73d24c7b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 33/63] fix: grey PNG images with transparency keep their data

---
 minigopdf/image_obj_parse.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index ad46a40..2b25115 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -375,15 +375,15 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
-- 
2.43.0


From 5f6f2fa656c346e49b0cd77c217bde3b8e626f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 34/63] fix: accept PNG palettes made of white-space bytes

---
 minigopdf/image_obj_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 2b25115..70d0ebf 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -296,7 +296,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	//fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
-- 
2.43.0


From 31cc7c1b9b7d1d5eba3ef34da16a3d02b7921ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 35/63] fix: palette of indexed PNG images is put into the file

---
 minigopdf/device_rgb_obj.go | 13 +++++++++++++
 minigopdf/image_obj.go      | 13 +++++++++++++
 pdft.go                     | 28 ++++++++++++++++++++++++++++
 3 files changed, 54 insertions(+)

diff --git a/minigopdf/device_rgb_obj.go b/minigopdf/device_rgb_obj.go
index 68b8228..1164719 100644
--- a/minigopdf/device_rgb_obj.go
+++ b/minigopdf/device_rgb_obj.go
@@ -17,6 +17,9 @@ func (d *DeviceRGBObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (d *DeviceRGBObj) protection() *PDFProtection {
+	if d.getRoot == nil {
+		return nil
+	}
 	return d.getRoot().protection()
 }
 
@@ -43,8 +46,18 @@ func (d *DeviceRGBObj) build(objID int) error {
 		d.buffer.WriteString("\n")
 	} else {
 		d.buffer.Write(d.data)
+		d.buffer.WriteString("\n")
 	}
 	d.buffer.WriteString("endstream\n")
 
 	return nil
 }
+
+// BytesBuffer byte buffer
+func (d *DeviceRGBObj) BytesBuffer(objID int) (*bytes.Buffer, error) {
+	err := d.build(objID)
+	if err != nil {
+		return nil, err
+	}
+	return d.getObjBuff(), nil
+}
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..9969e09 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -97,6 +97,19 @@ func (i *ImageObj) createSMask() (*SMask, error) {
 	return &smk, nil
 }
 
+// SetDeviceRGBObjID set objId of the palette
+func (i *ImageObj) SetDeviceRGBObjID(objID int) {
+	i.imginfo.deviceRGBObjID = objID - 1
+}
+
+// CreateDeviceRGB create the palette of an indexed image
+func (i *ImageObj) CreateDeviceRGB() (*DeviceRGBObj, error) {
+	if !i.isColspaceIndexed() {
+		return nil, nil
+	}
+	return i.createDeviceRGB()
+}
+
 func (i *ImageObj) createDeviceRGB() (*DeviceRGBObj, error) {
 	var dRGB DeviceRGBObj
 	dRGB.data = i.imginfo.pal
diff --git a/pdft.go b/pdft.go
index a527174..60e7429 100644
--- a/pdft.go
+++ b/pdft.go
@@ -396,6 +396,10 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 		smaskObjID := i.pdf.putNewObject(pdfObj)
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
+	err = i.putPalette(&imgObj)
+	if err != nil {
+		return err
+	}
 
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
@@ -442,6 +446,10 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		smaskObjID := i.pdf.putNewObject(pdfObj)
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
+	err = i.putPalette(&imgObj)
+	if err != nil {
+		return err
+	}
 
 	pdfimg.setImgObj(imgObj)
 
@@ -488,6 +496,10 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
+		err = i.putPalette(&imgObj)
+		if err != nil {
+			return err
+		}
 		pdfimg.setImgObj(imgObj)
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
@@ -505,6 +517,22 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 	return nil
 }
 
+// putPalette puts the palette of an indexed image into the pdf
+func (i *PDFt) putPalette(imgObj *gopdf.ImageObj) error {
+	palette, err := imgObj.CreateDeviceRGB()
+	if err != nil || palette == nil {
+		return err
+	}
+	buff, err := palette.BytesBuffer(0)
+	if err != nil {
+		return err
+	}
+	var pdfObj PDFObjData
+	pdfObj.data = buff.Bytes()
+	imgObj.SetDeviceRGBObjID(i.pdf.putNewObject(pdfObj))
+	return nil
+}
+
 /*
 func (i *PDFt) insertContenters(index int, src Contenter) {
 	i.contenters = append(i.contenters, nil)
-- 
2.43.0


From ae93f5ab734673d118108c2fd9170e662480f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:33 +0000
Subject: [PATCH 36/63] fix: encrypt the strings of a protected document

---
 pdf_obj_data.go | 129 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 125 insertions(+), 4 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index acdb8ce..53955b4 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -3,6 +3,7 @@ package pdft
 import (
 	"bytes"
 	"crypto/rc4"
+	"encoding/hex"
 	"errors"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
@@ -66,24 +67,34 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 
 func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, pdf *PDFData) error {
 
+	key := protection.Objectkey(p.objID)
 	endstream := []byte("endstream")
 	start := streamStart(p.data)
 	end := bytes.LastIndex(p.data, endstream)
-	if start == -1 || end < start {
-		return nil //not a stream
+	if start == -1 || end < start { //not a stream
+		data, err := encryptStrings(key, p.data)
+		if err != nil {
+			return err
+		}
+		p.data = data
+		return nil
 	}
 
 	length, err := streamLength(pdf, &p.data)
 	if err != nil || length < 0 || start+length > end {
 		length = len(bytes.TrimRight(p.data[start:end], "\r\n")) //no usable /Length
 	}
-	bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), p.data[start:start+length])
+	bodyRc4, err := rc4Cip(key, p.data[start:start+length])
+	if err != nil {
+		return err
+	}
+	dict, err := encryptStrings(key, p.data[0:start])
 	if err != nil {
 		return err
 	}
 
 	var data bytes.Buffer
-	data.Write(p.data[0:start])
+	data.Write(dict)
 	data.Write(bodyRc4)
 	data.WriteString("\n")
 	data.Write(endstream)
@@ -91,6 +102,116 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, pdf *PDFData) erro
 	return nil
 }
 
+// encryptStrings encrypts the strings among the values in src
+func encryptStrings(key []byte, src []byte) ([]byte, error) {
+	var dest bytes.Buffer
+	for i := 0; i < len(src); {
+		n := 1
+		var str []byte
+		isStr := false
+		switch {
+		case src[i] == '%': //comment
+			if n = bytes.IndexAny(src[i:], "\r\n"); n == -1 {
+				n = len(src) - i
+			}
+		case bytes.HasPrefix(src[i:], []byte("<<")):
+			n = 2
+		case src[i] == '<':
+			str, n = readHexString(src[i:])
+			isStr = true
+		case src[i] == '(':
+			str, n = readLiteralString(src[i:])
+			isStr = true
+		}
+		if isStr {
+			strRc4, err := rc4Cip(key, str)
+			if err != nil {
+				return nil, err
+			}
+			dest.WriteString("<" + hex.EncodeToString(strRc4) + ">")
+		} else {
+			dest.Write(src[i : i+n])
+		}
+		i += n
+	}
+	return dest.Bytes(), nil
+}
+
+// readHexString reads the <..> string src begins with, and tells its length
+func readHexString(src []byte) ([]byte, int) {
+	var str []byte
+	digits := 0
+	n := 1
+	for ; n < len(src) && src[n] != '>'; n++ {
+		v := bytes.IndexByte([]byte("0123456789abcdef"), src[n]|0x20)
+		if v == -1 || src[n] < '0' {
+			continue
+		}
+		if digits%2 == 0 {
+			str = append(str, byte(v)<<4)
+		} else {
+			str[len(str)-1] |= byte(v)
+		}
+		digits++
+	}
+	if n < len(src) {
+		n++
+	}
+	return str, n
+}
+
+// readLiteralString reads the (..) string src begins with, and tells its length
+func readLiteralString(src []byte) ([]byte, int) {
+	var str []byte
+	depth := 1
+	n := 1
+	for n < len(src) {
+		c := src[n]
+		n++
+		switch c {
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return str, n
+			}
+		case '\r': //any end of line is read as \n
+			if n < len(src) && src[n] == '\n' {
+				n++
+			}
+			c = '\n'
+		case '\\':
+			if n == len(src) {
+				return str, n
+			}
+			c = src[n]
+			n++
+			switch {
+			case c == '\n':
+				continue
+			case c == '\r':
+				if n < len(src) && src[n] == '\n' {
+					n++
+				}
+				continue
+			case c >= '0' && c <= '7':
+				c -= '0'
+				for k := 0; k < 2 && n < len(src) && src[n] >= '0' && src[n] <= '7'; k++ {
+					c = c<<3 | (src[n] - '0')
+					n++
+				}
+			default:
+				if k := bytes.IndexByte([]byte("nrtbf"), c); k != -1 {
+					c = "\n\r\t\b\f"[k]
+				}
+			}
+		}
+		str = append(str, c)
+	}
+	return str, n
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
-- 
2.43.0


From 3e64f4c40ee895634734983aedfc4ce1b6384826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 37/63] fix: opening another file starts a new document

---
 pdft.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdft.go b/pdft.go
index 60e7429..df10dd7 100644
--- a/pdft.go
+++ b/pdft.go
@@ -100,6 +100,9 @@ func (i *PDFt) Open(filepath string) error {
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
 	//init
+	i.pdf = PDFData{}
+	i.pdfImgs = nil
+	i.contenters = nil
 	i.fontDatas = make(map[string]*PDFFontData)
 	i.curr.lineWidth = 1.0
 	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
-- 
2.43.0


From 1d1a09c255d92f061df1321f9ddd6ee767d7550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 38/63] fix: strings, names and comments in dictionaries are
 read as such

---
 crawl_result.go          |   9 ++++
 pdf_data.go              |  10 ++--
 pdf_obj_data.go          |  13 +++--
 pdf_obj_property_data.go | 102 ++++++++++++++++++++++++++++-----------
 4 files changed, 100 insertions(+), 34 deletions(-)

diff --git a/crawl_result.go b/crawl_result.go
index d0d86ed..d92e846 100644
--- a/crawl_result.go
+++ b/crawl_result.go
@@ -28,6 +28,15 @@ func (c *crawlResult) setValOf(key string, val string) error {
 	return loopSetValOf(c, key, val)
 }
 
+func (c *crawlResult) has(key string) bool {
+	for _, item := range c.items {
+		if item.key == key {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *crawlResult) add(key string, val string) error {
 	var item crawlResultItem
 	item.key = key
diff --git a/pdf_data.go b/pdf_data.go
index a1550a2..e5d85c1 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -88,7 +88,7 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	}
 	for len(checkedQueue) > 0 {
 		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
+		if r := cw.results[key]; r.has("Pages") && r.has("Kids") {
 			var subCw crawl
 			subCw.set(p, key, path...)
 			subCw.run()
@@ -604,11 +604,15 @@ var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
 // streamStart index of the first byte of stream data: after the keyword and its end of line
 func streamStart(b []byte) int {
-	index := bytes.Index(b, extractStreamBytes)
+	_, end, err := normalizeDictionary(b) //the keyword comes after the dictionary
+	if err != nil {
+		return -1
+	}
+	index := bytes.Index(b[end:], extractStreamBytes)
 	if index < 0 {
 		return -1
 	}
-	start := index + len(extractStreamBytes)
+	start := end + index + len(extractStreamBytes)
 	eol := start
 	for eol < len(b) && (b[eol] == ' ' || b[eol] == '\t') {
 		eol++
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 53955b4..80e278b 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -111,9 +111,7 @@ func encryptStrings(key []byte, src []byte) ([]byte, error) {
 		isStr := false
 		switch {
 		case src[i] == '%': //comment
-			if n = bytes.IndexAny(src[i:], "\r\n"); n == -1 {
-				n = len(src) - i
-			}
+			n = lenOfComment(src[i:])
 		case bytes.HasPrefix(src[i:], []byte("<<")):
 			n = 2
 		case src[i] == '<':
@@ -137,6 +135,15 @@ func encryptStrings(key []byte, src []byte) ([]byte, error) {
 	return dest.Bytes(), nil
 }
 
+// lenOfComment tells the length of the comment src begins with
+func lenOfComment(src []byte) int {
+	n := bytes.IndexAny(src, "\r\n")
+	if n == -1 {
+		return len(src)
+	}
+	return n
+}
+
 // readHexString reads the <..> string src begins with, and tells its length
 func readHexString(src []byte) ([]byte, int) {
 	var str []byte
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..191d0de 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 )
@@ -77,40 +76,77 @@ func readProperty(rawObj *[]byte, key string) (*PDFObjPropertyData, error) {
 
 func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 
-	tmp0 := *rawObj
-	index := bytes.Index(*rawObj, extractStreamBytes)
-	if index != -1 { //เป็น stream
-		tmp0 = tmp0[0:index]
-	}
-	startObjInx := strings.Index(string(tmp0), "<<")
-	endObjInx := strings.LastIndex(string(tmp0), ">>")
-	if startObjInx > endObjInx || startObjInx == -1 || endObjInx == -1 {
-		return errors.New("bad obj properties")
+	tmp, _, err := normalizeDictionary(*rawObj)
+	if err != nil {
+		return err
 	}
 
-	//fmt.Printf("\n\n%s\n\n%d\n", string(*rawObj), endObjInx)
-
-	var regexpSlash = regexp.MustCompile("[\\r\\n\\t ]+\\/")
-	var regexpOpenB = regexp.MustCompile("[\\r\\n\\t ]+\\[")
-	var regexpCloseB = regexp.MustCompile("[\\r\\n\\t ]+\\]")
-	var regexpOpen = regexp.MustCompile("[\\r\\n\\t ]+\\<\\<")
-	var regexpClose = regexp.MustCompile("[\\r\\n\\t ]+\\>\\>")
-	var regexpLine = regexp.MustCompile("[\\r\\n\\t ]+")
-
-	tmp := strings.TrimSpace(string((*rawObj)[startObjInx+len("<<") : endObjInx]))
-	tmp = regexpLine.ReplaceAllString(tmp, " ")
-	tmp = regexpSlash.ReplaceAllString(tmp, "/")
-	tmp = regexpOpenB.ReplaceAllString(tmp, "[")
-	tmp = regexpCloseB.ReplaceAllString(tmp, "]")
-	tmp = regexpOpen.ReplaceAllString(tmp, "<<")
-	tmp = regexpClose.ReplaceAllString(tmp, ">>")
-
 	var pp parseProps
 
 	pp.set(tmp, outProps)
 	return nil
 }
 
+// normalizeDictionary gives the inside of the first dictionary in rawObj, with
+// no more white space than needed and without comments (strings stay as they
+// are), and where the dictionary ends
+func normalizeDictionary(rawObj []byte) (string, int, error) {
+	var buff bytes.Buffer
+	depth := 0
+	space := false
+	for i := 0; i < len(rawObj); {
+		n := 1
+		tight := false //no white space before
+		switch c := rawObj[i]; {
+		case c == '%':
+			n = lenOfComment(rawObj[i:])
+			space = true
+			i += n
+			continue
+		case bytes.IndexByte([]byte("\x00\t\n\f\r "), c) != -1:
+			space = true
+			i++
+			continue
+		case c == '(':
+			_, n = readLiteralString(rawObj[i:])
+		case bytes.HasPrefix(rawObj[i:], []byte("<<")):
+			n = 2
+			depth++
+			tight = true
+			if depth == 1 {
+				i += n
+				space = false
+				continue
+			}
+		case bytes.HasPrefix(rawObj[i:], []byte(">>")):
+			n = 2
+			depth--
+			tight = true
+			if depth < 0 {
+				return "", 0, errors.New("bad obj properties")
+			}
+			if depth == 0 {
+				return buff.String(), i + n, nil
+			}
+		case c == '<':
+			_, n = readHexString(rawObj[i:])
+		case c == '/' || c == '[' || c == ']':
+			tight = true
+		case depth == 0 && bytes.HasPrefix(rawObj[i:], extractStreamBytes):
+			return "", 0, errors.New("bad obj properties")
+		}
+		if depth > 0 {
+			if space && !tight && buff.Len() > 0 {
+				buff.WriteString(" ")
+			}
+			buff.Write(rawObj[i : i+n])
+		}
+		space = false
+		i += n
+	}
+	return "", 0, errors.New("bad obj properties")
+}
+
 type parseProps struct {
 	str        string
 	max        int
@@ -138,7 +174,7 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 		} else if status == "key" {
 			if r == " " {
 				i, status = p.loop(i+1, "val")
-			} else if r == "<" || r == "[" {
+			} else if r == "<" || r == "[" || r == "(" {
 				i, status = p.loop(i, "val")
 			} else if r == "/" {
 				return i - 1, ""
@@ -147,6 +183,16 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 			}
 		} else if status == "val" {
 
+			if r == "(" {
+				_, n := readLiteralString([]byte(p.str[i:]))
+				p.props.at(p.propsIndex).rawVal += p.str[i : i+n]
+				i += n
+				if count01 == 0 && count02 == 0 {
+					return i - 1, ""
+				}
+				continue
+			}
+
 			if r == "<" {
 				count01++
 			} else if r == "[" {
-- 
2.43.0


From 57c4d03dd469edd232391ae0b7c08915ea8220bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 39/63] fix: the last version of an object and of the trailer
 counts

---
 pdf_parse.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index 6098be6..4bf11e9 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -127,7 +127,7 @@ func setPagesObj(pdf *PDFData) error {
 
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
-	indexTrailers := regexpTrailer.FindAllIndex(*raw, 1)
+	indexTrailers := regexpTrailer.FindAllIndex(*raw, -1)
 	if len(indexTrailers) <= 0 {
 		return errors.New("trailer not found")
 	}
@@ -137,14 +137,16 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("startxref not found")
 	}
 
-	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
-	var props PDFObjPropertiesData
-	err := readProperties(&tmp, &props)
-	if err != nil {
-		return err
+	var propRoot *PDFObjPropertyData
+	for n := len(indexTrailers) - 1; n >= 0 && propRoot == nil; n-- { //the last one counts
+		tmp := (*raw)[indexTrailers[n][1]:]
+		var props PDFObjPropertiesData
+		err := readProperties(&tmp, &props)
+		if err != nil {
+			return err
+		}
+		propRoot = props.getPropByKey("Root")
 	}
-
-	propRoot := props.getPropByKey("Root")
 	if propRoot == nil {
 		return errors.New("/Root not found")
 	}
@@ -182,6 +184,7 @@ func parseXref(raw *[]byte, pdf *PDFData) error {
 }
 
 func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
+	indexes := make(map[int]int) //key is objID
 	for _, xref := range pdf.xrefs {
 		//fmt.Printf("%d\n", i)
 		if xref.Keyword == "n" {
@@ -190,6 +193,11 @@ func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 			if err != nil {
 				return err
 			}
+			if index, ok := indexes[pdfobj.objID]; ok { //a later section replaces the object
+				pdf.objs[index] = pdfobj
+				continue
+			}
+			indexes[pdfobj.objID] = pdf.Len()
 			pdf.put(pdfobj)
 		}
 	}
-- 
2.43.0


From dfa7336fe7e2a21b4d9feed8f4cdbb5a230ec85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 40/63] fix: the data of a stream may hold the word endobj

---
 pdf_obj_data.go | 11 ++++++++---
 regex.go        |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 80e278b..cc92da9 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -18,11 +18,16 @@ type PDFObjData struct {
 func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
 	tmp := (*raw)[stratoffset:]
-	endObjIndex := regexpEndObj.FindAllIndex(tmp, 1)
-	if len(endObjIndex) <= 0 {
+	endObjIndex := regexpEndObj.FindIndex(tmp)
+	if endObjIndex == nil {
 		return errors.New("bad endobj")
 	}
-	endObjOffsetBefore := endObjIndex[0][0] + stratoffset
+	if streamStart(tmp[:endObjIndex[0]]) != -1 { //the data of a stream may hold the word endobj
+		if endStreamIndex := regexpEndStream.FindIndex(tmp); endStreamIndex != nil {
+			endObjIndex[0] = endStreamIndex[1] - len("endobj")
+		}
+	}
+	endObjOffsetBefore := endObjIndex[0] + stratoffset
 
 	tmp = (*raw)[stratoffset:endObjOffsetBefore]
 	startObjIndex := regexpStartObj.FindAllIndex(tmp, 1)
diff --git a/regex.go b/regex.go
index 18e38fc..e069abf 100644
--- a/regex.go
+++ b/regex.go
@@ -4,7 +4,8 @@ import "regexp"
 
 var regexpXref = regexp.MustCompile("xref")
 var regexpXrefLine = regexp.MustCompile("[0-9]{10}[\\t ]+[0-9]{5}[\\t ][f,n]")
-var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]0[\\n\\r\\t ]obj")
+var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]+0[\\n\\r\\t ]+obj")
 var regexpEndObj = regexp.MustCompile("endobj")
+var regexpEndStream = regexp.MustCompile("endstream[\\n\\r\\t ]+endobj")
 var regexpTrailer = regexp.MustCompile("trailer")
 var regexpStartxref = regexp.MustCompile("startxref")
-- 
2.43.0


From d18619d3521735d9ab502f78a366cb23c8006830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 41/63] fix: texts and images on pages whose contents are
 missing, in an array of its own or in another encoding

---
 pdf_data.go | 205 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 115 insertions(+), 90 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index e5d85c1..728e8a8 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -435,95 +435,120 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	}
 	pageObjIDs, _ := p.getPageObjIDs()
 	contentsUsed := p.countContentsUsed(pageObjIDs)
-	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
-
-		var cw2Content crawl
-		cw2Content.set(p, pageObjID, "Contents")
-		err = cw2Content.run()
+		pageBuff, ok := pageBuffs[pageIndex+1]
+		if !ok {
+			continue
+		}
+		contentsObjIDs, err := p.contentsObjIDs(pageObjID)
 		if err != nil {
 			return err
 		}
 
-		for _, r := range cw2Content.results {
-
-			//fmt.Printf("%s\n\n", r.String())
-
-			var propContentsVal string
-			// fmt.Printf("id=%d\n", id)
-			propContentsVal, err = r.valOf("Contents")
-			// fmt.Printf("%d propContentsVal=%s\n\n", 0, r.String())
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			}
-
-			propContentsValType := propertyType(propContentsVal)
-			/*if propContentsValType != dictionary {
-				return errors.New("not support /Contents type not dictionary yet")
-			}*/
-			var contentsObjID int
-			if propContentsValType == dictionary {
-				contentsObjID, _, err = readObjIDFromDictionary(propContentsVal)
-				if err != nil {
-					return err
-				}
-			} else if propContentsValType == array {
-				contentsObjIDs, _, err := readObjIDFromDictionaryArr(propContentsVal)
-				if err != nil || len(contentsObjIDs) <= 0 {
-					return err
-				}
-				contentsObjID = contentsObjIDs[len(contentsObjIDs)-1] //after all the original content
-			} else {
-				return errors.New("not support /Contents type not dictionary,array yet")
-			}
-
-			data := &p.getObjByID(contentsObjID).data
-			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
+		if len(contentsObjIDs) == 0 {
+			err = p.setContents(pageObjID, []int{p.putNewContent(pageBuff.Bytes())})
 			if err != nil {
 				return err
 			}
-			if propContentsObj == nil {
-				zip = false
-			}
+			continue
+		}
 
-			var stm *bytes.Buffer
-			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
-			stmLen, err := streamLength(p, data)
+		last := len(contentsObjIDs) - 1 //after all the original content
+		data := &p.getObjByID(contentsObjIDs[last]).data
+		zip, supported, err := filterOfContent(p, data)
+		if err != nil {
+			return err
+		}
+		if !supported { //leave it as it is
+			err = p.setContents(pageObjID, append(contentsObjIDs, p.putNewContent(pageBuff.Bytes())))
 			if err != nil {
 				return err
 			}
+			continue
+		}
 
-			stm, err = extractStream(data, stmLen, zip)
+		stmLen, err := streamLength(p, data)
+		if err != nil {
+			return err
+		}
+		stm, err := extractStream(data, stmLen, zip)
+		if err != nil {
+			return err
+		}
+		stm.WriteString("\n")
+		pageBuff.WriteTo(stm)
+		if contentsUsed[contentsObjIDs[last]] > 1 { //other pages show the same object, they must not change
+			contentsObjIDs[last] = p.putNewContent(stm.Bytes())
+			err = p.setContents(pageObjID, contentsObjIDs)
 			if err != nil {
 				return err
 			}
-			//fmt.Printf("stm=%s\n\n", stm.String())
-
-			if _, ok := pageBuffs[pageIndex+1]; ok {
-				stm.WriteString("\n")
-				pageBuffs[pageIndex+1].WriteTo(stm)
-				newContents := fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
-				if contentsUsed[contentsObjID] > 1 { //other pages show the same object, they must not change
-					err = p.replaceLastContents(pageObjID, p.putNewObject(PDFObjData{data: []byte(newContents)}))
-					if err != nil {
-						return err
-					}
-				} else {
-					objMustReplaces[contentsObjID] = newContents
-				}
-			}
-
+		} else {
+			*data = contentData(stm.Bytes())
 		}
 	}
 
-	for objID := range objMustReplaces {
-		//_ = objID
-		//fmt.Printf("objID=%d\n", objID)
-		p.getObjByID(objID).data = []byte("" + objMustReplaces[objID] + "")
-		//fmt.Printf("objId=%d %s\n", objID, string(p.getObjByID(objID).data))
+	return nil
+}
+
+func contentData(stm []byte) []byte {
+	return []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", len(stm), stm))
+}
+
+func (p *PDFData) putNewContent(stm []byte) int {
+	return p.putNewObject(PDFObjData{data: contentData(stm)})
+}
+
+// contentsObjIDs the objects a page shows, in order
+func (p *PDFData) contentsObjIDs(pageObjID int) ([]int, error) {
+	prop, err := readProperty(&p.getObjByID(pageObjID).data, "Contents")
+	if err != nil || prop == nil {
+		return nil, err
+	}
+	val := strings.TrimSpace(prop.rawVal)
+	if propertyType(val) == dictionary && val != "null" {
+		objID, _, err := readObjIDFromDictionary(val)
+		if err != nil {
+			return nil, err
+		}
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			return nil, nil
+		}
+		data := strings.TrimSpace(string(obj.data))
+		if !strings.HasPrefix(data, "[") {
+			return []int{objID}, nil
+		}
+		val = strings.Join(strings.Fields(data), " ") //the array is an object of its own
+	}
+	if val == "null" || strings.TrimSpace(strings.Trim(val, "[]")) == "" {
+		return nil, nil
+	}
+	if propertyType(val) != array {
+		return nil, errors.New("not support /Contents type not dictionary,array yet")
 	}
+	objIDs, _, err := readObjIDFromDictionaryArr(val)
+	return objIDs, err
+}
 
+// setContents let a page show these objects
+func (p *PDFData) setContents(pageObjID int, contentsObjIDs []int) error {
+	pageObj := p.getObjByID(pageObjID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	prop := props.getPropByKey("Contents")
+	if prop == nil {
+		props.append(PDFObjPropertyData{key: "Contents"})
+		prop = props.at(props.size() - 1)
+	}
+	if len(contentsObjIDs) == 1 {
+		prop.setAsDictionary(contentsObjIDs[0], 0)
+	} else {
+		prop.setAsDictionaryArr(contentsObjIDs, nil)
+	}
+	pageObj.setProperties(props)
 	return nil
 }
 
@@ -531,11 +556,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 func (p *PDFData) countContentsUsed(pageObjIDs []int) map[int]int {
 	used := make(map[int]int)
 	for _, pageObjID := range pageObjIDs {
-		prop, err := readProperty(&p.getObjByID(pageObjID).data, "Contents")
-		if err != nil || prop == nil {
-			continue
-		}
-		ids, _, err := prop.asDictionaryArr()
+		ids, err := p.contentsObjIDs(pageObjID)
 		if err != nil {
 			continue
 		}
@@ -546,26 +567,30 @@ func (p *PDFData) countContentsUsed(pageObjIDs []int) map[int]int {
 	return used
 }
 
-// replaceLastContents let the page show another object as its last content
-func (p *PDFData) replaceLastContents(pageObjID int, contentsObjID int) error {
-	pageObj := p.getObjByID(pageObjID)
-	props, err := pageObj.readProperties()
+// filterOfContent tells whether a content stream is compressed, and whether it
+// is one that can be read
+func filterOfContent(p *PDFData, data *[]byte) (zip bool, supported bool, err error) {
+	var props PDFObjPropertiesData
+	err = readProperties(data, &props)
 	if err != nil {
-		return err
+		return false, false, err
 	}
-	prop := props.getPropByKey("Contents")
-	if prop.valType() == array {
-		ids, revisions, err := prop.asDictionaryArr()
-		if err != nil {
-			return err
-		}
-		ids[len(ids)-1] = contentsObjID
-		prop.setAsDictionaryArr(ids, revisions)
-	} else {
-		prop.setAsDictionary(contentsObjID, 0)
+	if props.getPropByKey("DecodeParms") != nil || props.getPropByKey("F") != nil {
+		return false, false, nil
 	}
-	pageObj.setProperties(props)
-	return nil
+	filter := props.getPropByKey("Filter")
+	if filter == nil || filter.rawVal == "null" {
+		return false, true, nil
+	}
+	if filter.rawVal == "" { //a name
+		zip = props.getPropByKey("FlateDecode") != nil
+		return zip, zip, nil
+	}
+	if filter.valType() == array {
+		names := strings.Trim(filter.rawVal, "[] ")
+		return names == "/FlateDecode", names == "/FlateDecode" || names == "", nil
+	}
+	return false, false, nil
 }
 
 func streamLength(p *PDFData, data *[]byte) (int, error) {
-- 
2.43.0


From 614c06540167fdc927666384890b899fcb2a7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:12 +0000
Subject: [PATCH 42/63] fix: copying a page whose contents are in an array of
 its own

---
 pdf_data.go | 13 +++++++++++--
 pdft.go     | 27 ++++++++++-----------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 728e8a8..b76079b 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -527,8 +527,17 @@ func (p *PDFData) contentsObjIDs(pageObjID int) ([]int, error) {
 	if propertyType(val) != array {
 		return nil, errors.New("not support /Contents type not dictionary,array yet")
 	}
-	objIDs, _, err := readObjIDFromDictionaryArr(val)
-	return objIDs, err
+	refs, _, err := readObjIDFromDictionaryArr(val)
+	if err != nil {
+		return nil, err
+	}
+	var objIDs []int
+	for _, objID := range refs {
+		if p.getObjByID(objID) != nil {
+			objIDs = append(objIDs, objID)
+		}
+	}
+	return objIDs, nil
 }
 
 // setContents let a page show these objects
diff --git a/pdft.go b/pdft.go
index df10dd7..24041be 100644
--- a/pdft.go
+++ b/pdft.go
@@ -144,26 +144,19 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if pageContent == nil {
 		return ErrNoContentsProperty
 	}
-	if pageContent.valType() == array {
-		contentIDs, revisions, err := pageContent.asDictionaryArr()
-		if err != nil {
-			return err
-		}
-		for n, contentID := range contentIDs {
-			contentIDs[n] = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-		}
-		pageContent.setAsDictionaryArr(contentIDs, revisions)
-	} else {
-		contentID, _, err := pageContent.asDictionary()
-		if err != nil {
-			return err
-		}
-		contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-		pageContent.setAsDictionary(contentID, 0)
+	contentIDs, err := i.pdf.contentsObjIDs(pageObj.objID)
+	if err != nil {
+		return err
+	}
+	for n, contentID := range contentIDs {
+		contentIDs[n] = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
 	}
-	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
+	err = i.pdf.setContents(pageID, contentIDs)
+	if err != nil {
+		return err
+	}
 
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
-- 
2.43.0


From 06467f891a2bb797d9a2c88cfdaed0a37159694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:05 +0000
Subject: [PATCH 43/63] fix: comments in arrays and numbers that are objects of
 their own

---
 pdf_data.go     | 10 ++++++----
 pdf_obj_data.go |  9 +++++++++
 pdf_parse.go    |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index b76079b..2bed2f9 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -515,11 +515,10 @@ func (p *PDFData) contentsObjIDs(pageObjID int) ([]int, error) {
 		if obj == nil {
 			return nil, nil
 		}
-		data := strings.TrimSpace(string(obj.data))
-		if !strings.HasPrefix(data, "[") {
+		if propertyType(obj.value()) != array {
 			return []int{objID}, nil
 		}
-		val = strings.Join(strings.Fields(data), " ") //the array is an object of its own
+		val = obj.value() //the array is an object of its own
 	}
 	if val == "null" || strings.TrimSpace(strings.Trim(val, "[]")) == "" {
 		return nil, nil
@@ -627,7 +626,10 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 			return 0, err
 		}
 		fontlengthObj := p.getObjByID(objID)
-		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
+		if fontlengthObj == nil {
+			return 0, ErrorObjectIDNotFound
+		}
+		return strconv.Atoi(fontlengthObj.value())
 	} else {
 		return 0, errors.New("/Length or /Length1  wrong type")
 	}
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index cc92da9..f735dd0 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -60,6 +60,15 @@ func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
 	return &props, nil
 }
 
+// value of an object that is no dictionary
+func (p *PDFObjData) value() string {
+	val, _, err := normalizeDictionary([]byte("<<" + string(p.data) + "\n>>"))
+	if err != nil {
+		return ""
+	}
+	return val
+}
+
 func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	var data bytes.Buffer
 	data.WriteString("<<\n")
diff --git a/pdf_parse.go b/pdf_parse.go
index 4bf11e9..3ab4f18 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -63,7 +63,7 @@ func parsePageSize(pdf *PDFData) error {
 				return err
 			}
 			if boxObj := pdf.getObjByID(boxID); boxObj != nil {
-				propContentsObj.setRaw(string(boxObj.data))
+				propContentsObj.setRaw(boxObj.value())
 			}
 		}
 		valType := propContentsObj.valType()
-- 
2.43.0


From 70c5d7d695f58726f9e5971d887944a5d27ebf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:33 +0000
Subject: [PATCH 44/63] fix: errors instead of panics on damaged templates

---
 crawl.go                 |  9 +++++++++
 pdf_data.go              | 33 +++++++++++++++++++++++++++++----
 pdf_obj_data.go          |  6 ++++++
 pdf_obj_property_data.go |  9 +++++++++
 pdf_parse.go             |  4 ++--
 pdft.go                  |  3 +++
 6 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/crawl.go b/crawl.go
index 4cdab91..26f460a 100644
--- a/crawl.go
+++ b/crawl.go
@@ -32,6 +32,9 @@ func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
 
 func (c *crawl) run() error {
 	objdata := c.pdf.getObjByID(c.objID)
+	if objdata == nil {
+		return ErrorObjectIDNotFound
+	}
 	err := c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
 	return err
 }
@@ -67,6 +70,9 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 					return err
 				}
 				objdata := c.pdf.getObjByID(objID)
+				if objdata == nil {
+					return ErrorObjectIDNotFound
+				}
 				err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				if err != nil {
 					return err
@@ -80,6 +86,9 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 				}
 				for _, objID := range objIDs {
 					objdata := c.pdf.getObjByID(objID)
+					if objdata == nil {
+						continue
+					}
 					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				}
 			} else if propType == object {
diff --git a/pdf_data.go b/pdf_data.go
index 2bed2f9..a2c8d86 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -107,8 +107,14 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
-	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
-	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
+	rootProps, err := p.getObjByID(p.trailer.rootObjID).readProperties()
+	if err != nil {
+		return nil, err
+	}
+	rootPagesID, _, err := rootProps.getPropByKey("Pages").asDictionary()
+	if err != nil {
+		return nil, err
+	}
 	objProps := map[int]*PDFObjPropertiesData{} // cache props
 	getObjProps := func(id int) *PDFObjPropertiesData {
 		if v, ok := objProps[id]; ok {
@@ -136,7 +142,13 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		return false
 	}
 	var visit func(id int) // Preorder Traversal, supporting for page nesting
+	visiting := map[int]bool{}
 	visit = func(id int) {
+		if visiting[id] { //a damaged tree
+			return
+		}
+		visiting[id] = true
+		defer delete(visiting, id)
 		if kids := getKids(id); kids != nil {
 			for _, kid := range kids {
 				visit(kid)
@@ -257,7 +269,11 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 			if err != nil {
 				return err
 			}
-			err = xobjs.parse(&p.getObjByID(xobjsID).data)
+			xobjsObj := p.getObjByID(xobjsID)
+			if xobjsObj == nil {
+				return ErrorObjectIDNotFound
+			}
+			err = xobjs.parse(&xobjsObj.data)
 			refs[xobjsID] = xobjs
 		}
 		if err != nil {
@@ -395,6 +411,9 @@ func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
 			}
 			var crFonts crawlResultFonts
 			fontObj := p.getObjByID(fontObjID)
+			if fontObj == nil {
+				return ErrorObjectIDNotFound
+			}
 			err = crFonts.parse(&fontObj.data)
 			if err != nil {
 				return err
@@ -433,7 +452,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			return err
 		}
 	}
-	pageObjIDs, _ := p.getPageObjIDs()
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
 	contentsUsed := p.countContentsUsed(pageObjIDs)
 	for pageIndex, pageObjID := range pageObjIDs {
 		pageBuff, ok := pageBuffs[pageIndex+1]
@@ -717,6 +739,9 @@ func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
 				return 0, err
 			}
 			fontObj := p.getObjByID(fontObjID)
+			if fontObj == nil {
+				return 0, ErrorObjectIDNotFound
+			}
 			err = crFonts.parse(&fontObj.data)
 			if err != nil {
 				return 0, err
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index f735dd0..1a93853 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -17,6 +17,9 @@ type PDFObjData struct {
 
 func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
+	if stratoffset > len(*raw) {
+		return errors.New("bad start obj")
+	}
 	tmp := (*raw)[stratoffset:]
 	endObjIndex := regexpEndObj.FindIndex(tmp)
 	if endObjIndex == nil {
@@ -52,6 +55,9 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
 // ReadProperties read all obj Properties
 func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
+	if p == nil {
+		return nil, ErrorObjectIDNotFound
+	}
 	var props PDFObjPropertiesData
 	err := readProperties(&p.data, &props)
 	if err != nil {
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 191d0de..fd89c86 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -41,10 +41,16 @@ func (p *PDFObjPropertyData) setAsDictionaryArr(values, revisions []int) {
 }
 
 func (p *PDFObjPropertyData) asDictionary() (int, int, error) {
+	if p == nil {
+		return 0, 0, ErrorObjectIDNotFound
+	}
 	return readObjIDFromDictionary(p.rawVal)
 }
 
 func (p *PDFObjPropertyData) asDictionaryArr() ([]int, []int, error) {
+	if p == nil {
+		return nil, nil, ErrorObjectIDNotFound
+	}
 	return readObjIDFromDictionaryArr(p.rawVal)
 }
 
@@ -229,6 +235,9 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 	i := 0
 	max := len(tokens)
 	for i < max {
+		if i+2 >= max {
+			return nil, nil, ErrorObjectIDNotFound
+		}
 		objID, err := strconv.Atoi(strings.TrimSpace(tokens[i]))
 		if err != nil {
 			return nil, nil, err
diff --git a/pdf_parse.go b/pdf_parse.go
index 3ab4f18..f91757b 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -118,8 +118,8 @@ func setPagesObj(pdf *PDFData) error {
 	}
 
 	pagesObj := pdf.getObjByID(pagesID)
-	if err != nil {
-		return err
+	if pagesObj == nil {
+		return ErrorObjectIDNotFound
 	}
 	pdf.pagesObj = pagesObj
 	return nil
diff --git a/pdft.go b/pdft.go
index 24041be..69aa069 100644
--- a/pdft.go
+++ b/pdft.go
@@ -214,6 +214,9 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 		}
 	}
 	nPage := len(pageObjIds)
+	if props.getPropByKey("Count") == nil || props.getPropByKey("Kids") == nil {
+		return errors.New("/Count or /Kids not found")
+	}
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
-- 
2.43.0


From 04772651ac2640dea5f31dd7254522ecb3f7563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:29 +0000
Subject: [PATCH 45/63] fix: errors instead of panics on damaged fonts

---
 minigopdf/fontmaker/core/ttfparser.go | 12 ++++++
 minigopdf/pdf_dictionary_obj.go       | 60 +++++++++++++++++++++++----
 minigopdf/subset_font_obj.go          |  4 +-
 3 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c750a59..50fd87e 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -862,6 +862,9 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.unitsPerEm == 0 {
+		return ErrUnitsPerEmIsZero
+	}
 
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
@@ -933,6 +936,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return ErrNoHMetrics
+	}
 
 	return nil
 }
@@ -954,6 +960,12 @@ func (t *TTFParser) ParseMaxp(fd *bytes.Reader) error {
 	return nil
 }
 
+// ErrUnitsPerEmIsZero units per em of the head table is zero
+var ErrUnitsPerEmIsZero = errors.New("unitsPerEm is zero")
+
+// ErrNoHMetrics the font has no horizontal metrics
+var ErrNoHMetrics = errors.New("numberOfHMetrics is zero")
+
 // ErrTableNotFound error table not found
 var ErrTableNotFound = errors.New("table not found")
 
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 606c63c..bcd8680 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -22,6 +22,12 @@ var EntrySelectors = []int{
 // ErrNotSupportShortIndexYet not suport none short index yet
 var ErrNotSupportShortIndexYet = errors.New("not suport none short index yet")
 
+// ErrBadGlyph a glyph is not in the font file
+var ErrBadGlyph = errors.New("glyph is out of font file")
+
+// ErrBadTable a table is not in the font file
+var ErrBadTable = errors.New("table is out of font file")
+
 // PdfDictionaryObj pdf dictionary object
 type PdfDictionaryObj struct {
 	buffer             bytes.Buffer
@@ -96,7 +102,10 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 
 	numGlyphs := int(ttfp.NumGlyphs())
 
-	glyphArray := p.completeGlyphClosure(p.PtrToSubsetFontObj.CharacterToGlyphIndex)
+	glyphArray, err := p.completeGlyphClosure(p.PtrToSubsetFontObj.CharacterToGlyphIndex)
+	if err != nil {
+		return nil, nil, err
+	}
 	glyphCount := len(glyphArray)
 	sort.Ints(glyphArray)
 
@@ -129,6 +138,21 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 	return glyphTable, locaTable, nil
 }
 
+// checkGlyph checks that the glyph is in the font file
+func (p *PdfDictionaryObj) checkGlyph(glyph int) error {
+	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
+	if glyph < 0 || glyph+1 >= len(ttfp.LocaTable) {
+		return ErrBadGlyph
+	}
+	glyf := ttfp.GetTables()["glyf"]
+	start := ttfp.LocaTable[glyph]
+	next := ttfp.LocaTable[glyph+1]
+	if start > next || glyf.Offset+next > uint(len(ttfp.FontData())) {
+		return ErrBadGlyph
+	}
+	return nil
+}
+
 func (p *PdfDictionaryObj) getGlyphSize(glyph int) int {
 
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
@@ -230,7 +254,14 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			data := ttfp.FontData()
+			if entry.Offset+entry.Length > uint(len(data)) {
+				return nil, ErrBadTable
+			}
+			WriteBytes(&buff, data, int(entry.Offset), int(entry.Length))
+			for n := int(entry.Length); n < entry.PaddedLength(); n++ {
+				buff.Write([]byte{0})
+			}
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -250,7 +281,7 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 	return buff.Bytes(), nil
 }
 
-func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) []int {
+func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) ([]int, error) {
 	var glyphArray []int
 	//copy
 	isContainZero := false
@@ -272,30 +303,41 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 
 	//the array grows: a component may be made of components itself
 	for i := 0; i < len(glyphArray); i++ {
-		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
+		if err := p.AddCompositeGlyphs(&glyphArray, glyphArray[i]); err != nil {
+			return nil, err
+		}
 	}
-	return glyphArray
+	return glyphArray, nil
 }
 
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
-func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
+func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) error {
+	if err := p.checkGlyph(glyph); err != nil {
+		return err
+	}
 	start := p.GetOffset(int(glyph))
 	if start == p.GetOffset(int(glyph)+1) {
-		return
+		return nil
 	}
 
 	offset := start
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	fontData := ttfp.FontData()
+	if offset+2 > len(fontData) {
+		return ErrBadGlyph
+	}
 	numContours, step := ReadShortFromByte(fontData, offset)
 	offset += step
 	if numContours >= 0 {
-		return
+		return nil
 	}
 
 	offset += 8
 	for {
+		if offset+4 > len(fontData) {
+			return ErrBadGlyph
+		}
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
@@ -313,7 +355,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 		}
 
 		if (flags & MORE_COMPONENTS) == 0 {
-			return
+			return nil
 		}
 		offsetAppend := 4
 		if (flags & ARG_1_AND_2_ARE_WORDS) == 0 {
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 1bc87be..3a84816 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -206,7 +206,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg == segCount || value < s.ttfp.StartCount[seg] {
 		return 0, nil
 	}
 
@@ -217,7 +217,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) || s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, nil
 	}
 
-- 
2.43.0


From aa5b62524f91178b0e0f06e9b52a58838cd06720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:08 +0000
Subject: [PATCH 46/63] fix: items were placed off by the left edge of the
 page's media box

---
 pdft.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pdft.go b/pdft.go
index 69aa069..d72d10d 100644
--- a/pdft.go
+++ b/pdft.go
@@ -327,7 +327,7 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
 	ct.pageNum = pageNum
-	ct.x = x
+	ct.x = x + i.pageLeft(pageNum)
 	ct.y = y
 	ct.w = w
 	ct.h = h
@@ -376,6 +376,14 @@ func (i *PDFt) pageHeight(pageNum int) float64 {
 	return 841.89 //A4
 }
 
+// pageLeft where the left edge of the page is
+func (i *PDFt) pageLeft(pageNum int) float64 {
+	if val, ok := i.pdf.pageSizes[pageNum-1]; ok {
+		return val[0]
+	}
+	return 0
+}
+
 // InsertImgBase64 insert img base 64
 func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float64, w float64, h float64) error {
 
@@ -413,7 +421,7 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 
 	var ct contentImgBase64
 	ct.pageNum = pageNum
-	ct.x = x
+	ct.x = x + i.pageLeft(pageNum)
 	ct.y = y
 	ct.h = h
 	ct.w = w
@@ -457,7 +465,7 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 
 	var ct contentImgBase64
 	ct.pageNum = pageNum
-	ct.x = x
+	ct.x = x + i.pageLeft(pageNum)
 	ct.y = y
 	ct.h = h
 	ct.w = w
@@ -506,7 +514,7 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 	}
 	var ct contentImgBase64
 	ct.pageNum = pageNum
-	ct.x = x
+	ct.x = x + i.pageLeft(pageNum)
 	ct.y = y
 	ct.h = h
 	ct.w = w
-- 
2.43.0


From db2bc5d27d7d660e1df77e2c0e1e4eb20f007e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:08 +0000
Subject: [PATCH 47/63] fix: items were placed out of the page when its media
 box gives the upper corner first

---
 pdf_parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index f91757b..1c25f06 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -78,6 +78,11 @@ func parsePageSize(pdf *PDFData) error {
 		if len(parseMediaBoxd) < 4 {
 			continue
 		}
+		for k := 0; k < 2; k++ { //the corners may be given in any order
+			if parseMediaBoxd[k] > parseMediaBoxd[k+2] {
+				parseMediaBoxd[k], parseMediaBoxd[k+2] = parseMediaBoxd[k+2], parseMediaBoxd[k]
+			}
+		}
 		pdf.pageSizes[n] = parseMediaBoxd
 	}
 	return nil
-- 
2.43.0


From 2ae27ebac153a6d05461236b8155d034743c3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 48/63] fix: an object that holds the word endobj in a string
 was cut there, form feeds in object headers

---
 pdf_obj_data.go | 40 ++++++++++++++++++++++++++++++++--------
 regex.go        |  4 ++--
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 1a93853..e0fd530 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -21,16 +21,11 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 		return errors.New("bad start obj")
 	}
 	tmp := (*raw)[stratoffset:]
-	endObjIndex := regexpEndObj.FindIndex(tmp)
-	if endObjIndex == nil {
+	endObjIndex := endOfObj(tmp)
+	if endObjIndex == -1 {
 		return errors.New("bad endobj")
 	}
-	if streamStart(tmp[:endObjIndex[0]]) != -1 { //the data of a stream may hold the word endobj
-		if endStreamIndex := regexpEndStream.FindIndex(tmp); endStreamIndex != nil {
-			endObjIndex[0] = endStreamIndex[1] - len("endobj")
-		}
-	}
-	endObjOffsetBefore := endObjIndex[0] + stratoffset
+	endObjOffsetBefore := endObjIndex + stratoffset
 
 	tmp = (*raw)[stratoffset:endObjOffsetBefore]
 	startObjIndex := regexpStartObj.FindAllIndex(tmp, 1)
@@ -53,6 +48,35 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 	return nil
 }
 
+// endOfObj tells where the endobj of the object src begins with is: strings,
+// comments and the data of a stream may hold that word, too
+func endOfObj(src []byte) int {
+	for i := 0; i < len(src); {
+		n := 1
+		switch {
+		case src[i] == '%':
+			n = lenOfComment(src[i:])
+		case src[i] == '(':
+			_, n = readLiteralString(src[i:])
+		case bytes.HasPrefix(src[i:], []byte("endobj")):
+			return i
+		case bytes.HasPrefix(src[i:], extractStreamBytes):
+			if streamStart(src[:i+len(extractStreamBytes)]) == -1 {
+				break
+			}
+			if endStreamIndex := regexpEndStream.FindIndex(src[i:]); endStreamIndex != nil {
+				return i + endStreamIndex[1] - len("endobj")
+			}
+			n = len(src) - i
+		}
+		i += n
+	}
+	if index := regexpEndObj.FindIndex(src); index != nil {
+		return index[0]
+	}
+	return -1
+}
+
 // ReadProperties read all obj Properties
 func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
 	if p == nil {
diff --git a/regex.go b/regex.go
index e069abf..a4f371f 100644
--- a/regex.go
+++ b/regex.go
@@ -4,8 +4,8 @@ import "regexp"
 
 var regexpXref = regexp.MustCompile("xref")
 var regexpXrefLine = regexp.MustCompile("[0-9]{10}[\\t ]+[0-9]{5}[\\t ][f,n]")
-var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]+0[\\n\\r\\t ]+obj")
+var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t\\f ]+0[\\n\\r\\t\\f ]+obj")
 var regexpEndObj = regexp.MustCompile("endobj")
-var regexpEndStream = regexp.MustCompile("endstream[\\n\\r\\t ]+endobj")
+var regexpEndStream = regexp.MustCompile("endstream[\\n\\r\\t\\f ]+endobj")
 var regexpTrailer = regexp.MustCompile("trailer")
 var regexpStartxref = regexp.MustCompile("startxref")
-- 
2.43.0


From b376a6a8cc664484e5fed916dfeb726609f416f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:06 +0000
Subject: [PATCH 49/63] fix: words like xref in a stream were taken for the
 file's cross-reference table

---
 pdf_parse.go | 75 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 10 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index 1c25f06..466d179 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -1,6 +1,7 @@
 package pdft
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -142,9 +143,16 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("startxref not found")
 	}
 
+	sections := xrefSections(*raw)
+	if sections == nil {
+		for _, indexTrailer := range indexTrailers {
+			sections = append(sections, indexTrailer[0])
+		}
+	}
 	var propRoot *PDFObjPropertyData
-	for n := len(indexTrailers) - 1; n >= 0 && propRoot == nil; n-- { //the last one counts
-		tmp := (*raw)[indexTrailers[n][1]:]
+	for n := len(sections) - 1; n >= 0 && propRoot == nil; n-- { //the last one counts
+		tmp := (*raw)[sections[n]:]
+		tmp = tmp[regexpTrailer.FindIndex(tmp)[1]:]
 		var props PDFObjPropertiesData
 		err := readProperties(&tmp, &props)
 		if err != nil {
@@ -171,20 +179,67 @@ func parseXref(raw *[]byte, pdf *PDFData) error {
 	if len(indexXrefs) <= 0 {
 		return errors.New("xref not found")
 	}
-	startXrefAt := indexXrefs[0][1]
-	xrefLines := regexpXrefLine.FindAllIndex(*raw, -1)
-	for _, xrefLine := range xrefLines {
-		if startXrefAt > xrefLine[0] { //xref must below "xref" string
-			continue
+	sections := xrefSections(*raw)
+	if sections == nil { //take whatever looks like an entry
+		return pdf.putXrefs((*raw)[indexXrefs[0][1]:])
+	}
+	for _, section := range sections {
+		tmp := (*raw)[section:]
+		err := pdf.putXrefs(tmp[:regexpTrailer.FindIndex(tmp)[0]])
+		if err != nil {
+			return err
 		}
+	}
+	return nil
+}
+
+// xrefSections tells where the cross-reference sections start, the oldest first;
+// nil if startxref and /Prev do not lead to them
+func xrefSections(raw []byte) []int {
+	startxref := bytes.LastIndex(raw, []byte("startxref"))
+	if startxref == -1 {
+		return nil
+	}
+	prev := string(raw[startxref+len("startxref"):])
+	var sections []int
+	seen := make(map[int]bool)
+	for {
+		fields := strings.Fields(prev)
+		if len(fields) <= 0 {
+			return nil
+		}
+		section, err := strconv.Atoi(fields[0])
+		if err != nil || section < 0 || section >= len(raw) || seen[section] {
+			return nil
+		}
+		seen[section] = true
+		tmp := bytes.TrimLeft(raw[section:], "\x00\t\n\f\r ")
+		indexTrailer := regexpTrailer.FindIndex(tmp)
+		if !bytes.HasPrefix(tmp, []byte("xref")) || indexTrailer == nil {
+			return nil
+		}
+		sections = append([]int{section}, sections...)
+		tmp = tmp[indexTrailer[1]:]
+		propPrev, err := readProperty(&tmp, "Prev")
+		if err != nil {
+			return nil
+		}
+		if propPrev == nil {
+			return sections
+		}
+		prev = propPrev.rawVal
+	}
+}
+
+func (p *PDFData) putXrefs(raw []byte) error {
+	for _, xrefLine := range regexpXrefLine.FindAll(raw, -1) {
 		var xref XrefData
-		err := xref.parse(string((*raw)[xrefLine[0]:xrefLine[1]]))
+		err := xref.parse(string(xrefLine))
 		if err != nil {
 			return err
 		}
-		pdf.xrefs = append(pdf.xrefs, xref)
+		p.xrefs = append(p.xrefs, xref)
 	}
-
 	return nil
 }
 
-- 
2.43.0


From 4f56637c553e4912b7d6eea96fa193c079e773fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:15 +0000
Subject: [PATCH 50/63] fix: a page with nothing drawn on it had a /Contents
 without a value

---
 minigopdf/page_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minigopdf/page_obj.go b/minigopdf/page_obj.go
index f737f9b..af45191 100644
--- a/minigopdf/page_obj.go
+++ b/minigopdf/page_obj.go
@@ -38,7 +38,9 @@ func (p *PageObj) build(objID int) error {
 	}
 	me.buffer.WriteString("    >>\n")*/
 	//me.buffer.WriteString("  >>\n")
-	p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	if p.Contents != "" { //a page may be left empty
+		p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	}
 	if !p.pageOption.isEmpty() {
 		height := fmt.Sprintf("%0.2f", p.pageOption.PageSize.H)
 		width := fmt.Sprintf("%0.2f", p.pageOption.PageSize.W)
-- 
2.43.0


From 24a37a1bb77f89ff1c98f61742545802b5bccb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:29 +0000
Subject: [PATCH 51/63] fix: writing a document a second time repeated its
 objects' contents in the file

---
 minigopdf/content_obj.go | 5 +----
 minigopdf/gopdf.go       | 7 ++++++-
 minigopdf/procset_obj.go | 3 +--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..d813eca 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -10,7 +10,6 @@ import (
 // ContentObj content object
 type ContentObj struct { //impl IObj
 	buffer    bytes.Buffer
-	stream    bytes.Buffer
 	listCache listCacheContent
 	//text bytes.Buffer
 	getRoot func() *GoPdf
@@ -41,15 +40,13 @@ func (c *ContentObj) build(objID int) error {
 			// should never happen...
 			return err
 		}
-		c.stream.WriteTo(zwriter)
 		buff.WriteTo(zwriter)
 		zwriter.Close()
 		cPtr = &zbuff
 	} else {
 		// zlib compressLevel = 0 adds header and thus
 		// needs /FlateDecode => pass through
-		buff.WriteTo(&c.stream)
-		cPtr = &c.stream
+		cPtr = buff
 	}
 	streamlen := (*cPtr).Len()
 	c.buffer.WriteString("<<\n")
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..1e3702e 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -412,6 +412,7 @@ func (gp *GoPdf) compilePdf() error {
 		objID := i + 1
 		linelens[i] = gp.buf.Len()
 		pdfObj := gp.pdfObjs[i]
+		pdfObj.getObjBuff().Reset() //it may have been built before
 		err = pdfObj.build(objID)
 		if err != nil {
 			return err
@@ -714,7 +715,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -723,6 +724,9 @@ func (gp *GoPdf) prepare() {
 		indexCurrPage := -1
 		var pagesObj *PagesObj
 		pagesObj = gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		//the document may have been written before
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -732,6 +736,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			} else if objtype == "Content" {
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
diff --git a/minigopdf/procset_obj.go b/minigopdf/procset_obj.go
index 8c6a48f..acd7ca3 100644
--- a/minigopdf/procset_obj.go
+++ b/minigopdf/procset_obj.go
@@ -38,8 +38,7 @@ func (pr *ProcSetObj) build(objID int) error {
 	i = 0
 	max = len(pr.RealteXobjs)
 	for i < max {
-		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", pr.getRoot().curr.CountOfL+1, pr.RealteXobjs[i].IndexOfObj+1))
-		pr.getRoot().curr.CountOfL++
+		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))
 		i++
 	}
 	pr.buffer.WriteString(">>\n")
-- 
2.43.0


From 81cbc18cd7603d21321cba20e6b357384606f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:30 +0000
Subject: [PATCH 52/63] fix: the document information broke the trailer, its
 texts and dates were wrong, and protection left it out

---
 minigopdf/gopdf.go | 90 +++++++++++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 32 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 1e3702e..770de1e 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"compress/zlib" // for constants
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io"
@@ -11,6 +12,7 @@ import (
 	"os"
 	"strconv"
 	"time"
+	"unicode/utf16"
 )
 
 const subsetFont = "SubsetFont"
@@ -423,7 +425,19 @@ func (gp *GoPdf) compilePdf() error {
 		gp.buf.WriteString("endobj\n\n")
 		i++
 	}
-	gp.xref(linelens, &gp.buf, &i)
+	infoObjID := 0
+	if gp.isUseInfo {
+		infoObjID = max + 1
+		linelens = append(linelens, gp.buf.Len())
+		i++
+		gp.buf.WriteString(strconv.Itoa(infoObjID) + " 0 obj\n")
+		err = gp.bindInfo(&gp.buf, infoObjID)
+		if err != nil {
+			return err
+		}
+		gp.buf.WriteString("endobj\n\n")
+	}
+	gp.xref(linelens, &gp.buf, &i, infoObjID)
 	return nil
 }
 
@@ -764,7 +778,7 @@ func (gp *GoPdf) prepare() {
 	}
 }
 
-func (gp *GoPdf) xref(linelens []int, buff *bytes.Buffer, i *int) error {
+func (gp *GoPdf) xref(linelens []int, buff *bytes.Buffer, i *int, infoObjID int) error {
 
 	xrefbyteoffset := buff.Len()
 	buff.WriteString("xref\n")
@@ -785,8 +799,8 @@ func (gp *GoPdf) xref(linelens []int, buff *bytes.Buffer, i *int) error {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", gp.encryptionObjID))
 		buff.WriteString("/ID [()()]\n")
 	}
-	if gp.isUseInfo {
-		gp.bindInfo(buff)
+	if infoObjID != 0 {
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", infoObjID))
 	}
 	buff.WriteString(">>\n")
 	buff.WriteString("startxref\n")
@@ -798,35 +812,51 @@ func (gp *GoPdf) xref(linelens []int, buff *bytes.Buffer, i *int) error {
 	return nil
 }
 
-func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
+func (gp *GoPdf) bindInfo(buff *bytes.Buffer, objID int) error {
 	var zerotime time.Time
-	buff.WriteString("/Info <<\n")
-
-	if gp.info.Author != "" {
-		buff.WriteString(fmt.Sprintf("/Author <FEFF%s>\n", encodeUtf8(gp.info.Author)))
-	}
+	buff.WriteString("<<\n")
 
-	if gp.info.Title != "" {
-		buff.WriteString(fmt.Sprintf("/Title <FEFF%s>\n", encodeUtf8(gp.info.Title)))
+	texts := []struct{ key, val string }{
+		{"Author", gp.info.Author},
+		{"Title", gp.info.Title},
+		{"Subject", gp.info.Subject},
+		{"Creator", gp.info.Creator},
+		{"Producer", gp.info.Producer},
 	}
-
-	if gp.info.Subject != "" {
-		buff.WriteString(fmt.Sprintf("/Subject <FEFF%s>\n", encodeUtf8(gp.info.Subject)))
+	for _, t := range texts {
+		if t.val == "" {
+			continue
+		}
+		val, err := hex.DecodeString("FEFF" + encodeUtf8(t.val))
+		if err != nil {
+			return err
+		}
+		if err := writePdfString(buff, "/"+t.key+" ", val, gp.protection(), objID); err != nil {
+			return err
+		}
 	}
 
-	if gp.info.Creator != "" {
-		buff.WriteString(fmt.Sprintf("/Creator <FEFF%s>\n", encodeUtf8(gp.info.Creator)))
+	if !zerotime.Equal(gp.info.CreationDate) {
+		if err := writePdfString(buff, "/CreationDate ", []byte("D:"+infodate(gp.info.CreationDate)), gp.protection(), objID); err != nil {
+			return err
+		}
 	}
 
-	if gp.info.Producer != "" {
-		buff.WriteString(fmt.Sprintf("/Producer <FEFF%s>\n", encodeUtf8(gp.info.Producer)))
-	}
+	buff.WriteString(">>\n")
+	return nil
+}
 
-	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+// writePdfString writes a string of the object objID, encrypted if the document is protected
+func writePdfString(buff *bytes.Buffer, label string, val []byte, protection *PDFProtection, objID int) error {
+	if protection != nil {
+		var err error
+		val, err = rc4Cip(protection.objectkey(objID), val)
+		if err != nil {
+			return err
+		}
 	}
-
-	buff.WriteString(" >>\n")
+	buff.WriteString(fmt.Sprintf("%s<%X>\n", label, val))
+	return nil
 }
 
 // ปรับ xref ให้เป็น 10 หลัก
@@ -860,19 +890,15 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, c := range utf16.Encode([]rune(str)) {
+		buff.WriteString(fmt.Sprintf("%04X", c))
 	}
 	return buff.String()
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	zone := t.Format("-0700")
+	return t.Format("20060102150405") + zone[:3] + "'" + zone[3:] + "'"
 }
 
 //tool for validate pdf https://www.pdf-online.com/osa/validate.aspx
-- 
2.43.0


From 6b94fa1eeb469cdbf28461ce4811bcd280011794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 53/63] fix: font strings and palettes of a protected document
 were not encrypted

---
 minigopdf/cid_font_obj.go | 13 +++++++++++--
 minigopdf/gopdf.go        |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..14ab98f 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -9,6 +9,11 @@ type CIDFontObj struct {
 	buffer                    bytes.Buffer
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	pdfProtection             *PDFProtection
+}
+
+func (ci *CIDFontObj) setProtection(p *PDFProtection) {
+	ci.pdfProtection = p
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
@@ -20,8 +25,12 @@ func (ci *CIDFontObj) build(objID int) error {
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
 	ci.buffer.WriteString("<<\n")
-	ci.buffer.WriteString("  /Ordering (Identity)\n")
-	ci.buffer.WriteString("  /Registry (Adobe)\n")
+	if err := writePdfString(&ci.buffer, "  /Ordering ", []byte("Identity"), ci.pdfProtection, objID); err != nil {
+		return err
+	}
+	if err := writePdfString(&ci.buffer, "  /Registry ", []byte("Adobe"), ci.pdfProtection, objID); err != nil {
+		return err
+	}
 	ci.buffer.WriteString("  /Supplement 0\n")
 	ci.buffer.WriteString(">>\n")
 	ci.buffer.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1)) //TODO fix
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 770de1e..ee6465d 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -257,6 +257,9 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
+			dRGB.init(func() *GoPdf {
+				return gp
+			})
 			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
 		}
 
@@ -557,6 +560,7 @@ func (gp *GoPdf) AddTTFFontByReaderWithOption(family string, rd io.Reader, optio
 	cidfont.init(func() *GoPdf {
 		return gp
 	})
+	cidfont.setProtection(gp.protection())
 	cidfont.SetPtrToSubsetFontObj(subsetFont)
 	cidfont.SetIndexObjSubfontDescriptor(subfontdescindex)
 	cidindex := gp.addObj(cidfont)
-- 
2.43.0


From c9baa7c44a30b55f2e0073341ae2d29a139a1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 54/63] fix: texts were joined into one that were placed or
 laid out apart, and joining moved the position too far

---
 minigopdf/cache_content_text.go | 9 ++++++++-
 minigopdf/list_cache_content.go | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 19aefdb..686e435 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -36,10 +36,17 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assumes this is not same content
 		return false
 	}
+	if c.contentType != cache.contentType || c.cellOpt != cache.cellOpt || c.cellOpt.Border != 0 {
+		return false
+	}
+	if cache.x != c.x+c.cellWidthPdfUnit {
+		//it does not go on where the last one ended
+		return false
+	}
 	if c.textColor.equal(cache.textColor) &&
 		c.grayFill == cache.grayFill &&
 		c.fontCountIndex == cache.fontCountIndex &&
diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index fbe898e..f983b87 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -52,6 +52,9 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 		return x, y, err
 	}
 
+	if !mustMakeNewCache { //the width is that of all the text since the cache began
+		x = cacheFont.x
+	}
 	if cacheFont.cellOpt.Float == 0 || cacheFont.cellOpt.Float&Right == Right || cacheFont.contentType == ContentTypeText {
 		x += textWidthPdfUnit
 	}
-- 
2.43.0


From f4875a8de36e4daa574e879d1df85987741e6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 55/63] fix: measuring a text while drawing a document failed

---
 minigopdf/cache_content_text.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 686e435..d224340 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -258,6 +258,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 	var leftRuneIndex uint
 	sumWidth := int(0)
 	//fmt.Printf("unitsPerEm = %d", unitsPerEm)
+	if out == nil { //only measuring
+		out = new(bytes.Buffer)
+	}
 	out.WriteString("[<")
 	runeIndex := 0
 	for i, r := range text {
@@ -271,7 +274,7 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		if i > 0 && f.ttfFontOption.UseKerning { //kerning
 			pairval := kern(f, leftRune, r, leftRuneIndex, glyphindex)
 			pairvalPdfUnit = convertTTFUnit2PDFUnit(int(pairval), unitsPerEm)
-			if pairvalPdfUnit != 0 && out != nil {
+			if pairvalPdfUnit != 0 {
 				out.WriteString(fmt.Sprintf(">%d<", (-1)*pairvalPdfUnit))
 			}
 		}
@@ -284,9 +287,7 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 			out.WriteString("[<")
 		}
 
-		if out != nil {
-			out.WriteString(fmt.Sprintf("%04X", glyphindex))
-		}
+		out.WriteString(fmt.Sprintf("%04X", glyphindex))
 		width, err := f.CharWidth(r)
 		if err != nil {
 			return 0, 0, 0, err
-- 
2.43.0


From 57dc53ed376435945f5eaeb6678c8fab1c704c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 56/63] fix: the colour of a text stayed for the texts and
 shapes that follow

---
 minigopdf/cache_content_text.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index d224340..d84dcf1 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -133,10 +133,14 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		return nil, err
 	}
 
+	coloured := r != 0 || g != 0 || b != 0
+	if coloured {
+		stream.WriteString("q\n") //the colour is of this text only
+	}
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r != 0 || g != 0 || b != 0 {
+	if coloured {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
@@ -161,6 +165,10 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		}
 	}
 
+	if coloured {
+		stream.WriteString("Q\n")
+	}
+
 	c.drawBorder(&stream)
 
 	return &stream, nil
-- 
2.43.0


From 4bfd70251da8d62c21ad2711a362eacd4773a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 57/63] fix: the underline was not below the text unless that
 was at the top of a cell

---
 minigopdf/cache_content_text.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index d84dcf1..182c35a 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -155,7 +155,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("ET\n")
 
 	if c.fontStyle&Underline == Underline {
-		underlineStream, err := c.underline(c.x, c.y, c.x+c.cellWidthPdfUnit, c.y)
+		underlineStream, err := c.underline(c.x, y, c.x+c.cellWidthPdfUnit)
 		if err != nil {
 			return nil, err
 		}
@@ -227,18 +227,17 @@ func (c *cacheContentText) drawBorder(stream *bytes.Buffer) error {
 	return nil
 }
 
-func (c *cacheContentText) underline(startX float64, startY float64, endX float64, endY float64) (*bytes.Buffer, error) {
+// underline draws a bar below the text, baseline is how high on the page the text stands
+func (c *cacheContentText) underline(startX float64, baseline float64, endX float64) (*bytes.Buffer, error) {
 
 	if c.fontSubset == nil {
 		return nil, errors.New("error AppendUnderline not found font")
 	}
 	unitsPerEm := float64(c.fontSubset.ttfp.UnitsPerEm())
-	h := c.pageHeight()
 	ut := float64(c.fontSubset.GetUt())
 	up := float64(c.fontSubset.GetUp())
 	var buff bytes.Buffer
-	textH := ContentObj_CalTextHeight(c.fontSize)
-	arg3 := float64(h) - (float64(startY) - ((up / unitsPerEm) * float64(c.fontSize))) - textH
+	arg3 := baseline + (up/unitsPerEm)*float64(c.fontSize)
 	arg4 := (ut / unitsPerEm) * float64(c.fontSize)
 	buff.WriteString(fmt.Sprintf("%0.2f %0.2f %0.2f -%0.2f re f\n", startX, arg3, endX-startX, arg4))
 	//fmt.Printf("arg3=%f arg4=%f\n", arg3, arg4)
-- 
2.43.0


From 39e7a76fd100ed8898e99d2d8f9fab71d022c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 58/63] fix: text without a font crashed

---
 minigopdf/gopdf.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index ee6465d..4ba81b4 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -17,6 +17,8 @@ import (
 
 const subsetFont = "SubsetFont"
 
+var errFontNotSet = errors.New("font is not set")
+
 // GoPdf : A simple library for generating PDF written in Go lang
 type GoPdf struct {
 
@@ -465,7 +467,9 @@ func (gp *GoPdf) GetBytesPdf() []byte {
 
 // Text write text start at current x,y ( current y is the baseline of text )
 func (gp *GoPdf) Text(text string) error {
-
+	if gp.curr.Font_ISubset == nil {
+		return errFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -481,6 +485,9 @@ func (gp *GoPdf) Text(text string) error {
 
 // CellWithOption create cell of text ( use current x,y is upper-left corner of cell)
 func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
+	if gp.curr.Font_ISubset == nil {
+		return errFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -502,6 +509,9 @@ func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
 		Float:  Right,
 	}
 
+	if gp.curr.Font_ISubset == nil {
+		return errFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -641,7 +651,9 @@ func (gp *GoPdf) SetFillColor(r uint8, g uint8, b uint8) {
 
 // MeasureTextWidth : measure Width of text (use current font)
 func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
-
+	if gp.curr.Font_ISubset == nil {
+		return 0, errFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 98a8068ede39376a807b068eb3c9a2b7406bc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:11 +0000
Subject: [PATCH 59/63] fix: a compression level that is too big was not
 replaced with the best

---
 minigopdf/gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 4ba81b4..2859e01 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -83,7 +83,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From b14a95c858f8db18da0f39596c011544b4aace66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:20 +0000
Subject: [PATCH 60/63] fix: a protected image had a line break too many after
 its data

---
 minigopdf/image_obj.go | 1 -
 minigopdf/smask_obj.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 9969e09..0d6c2bd 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -59,7 +59,6 @@ func (i *ImageObj) build(objID int) error {
 			return err
 		}
 		i.buffer.Write(tmp)
-		i.buffer.WriteString("\n")
 	} else {
 		i.buffer.Write(i.imginfo.data)
 	}
diff --git a/minigopdf/smask_obj.go b/minigopdf/smask_obj.go
index 9338bba..08eb5aa 100644
--- a/minigopdf/smask_obj.go
+++ b/minigopdf/smask_obj.go
@@ -52,7 +52,6 @@ func (s *SMask) build(objID int) error {
 			return err
 		}
 		s.buffer.Write(tmp)
-		s.buffer.WriteString("\n")
 	} else {
 		s.buffer.Write(s.data)
 	}
-- 
2.43.0


From 080c1f12fb728cf2ee15928583ea719862e52b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 61/63] fix: the soft mask of an image drawn in a new document
 was another object

---
 minigopdf/gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 2859e01..91daa28 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -250,7 +250,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1
 		}
 
 		if imgobj.isColspaceIndexed() {
-- 
2.43.0


From 54b56ae0fcc844008aac28d71a6d4f99ddc0c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 62/63] fix: kerning tables after the first one, other formats
 and damaged tables were read as something else

---
 minigopdf/fontmaker/core/ttfparser_kern.go | 51 +++++++++++++++-------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 92315b7..79b3243 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -2,7 +2,6 @@ package core
 
 import (
 	"bytes"
-	"fmt"
 )
 
 // Parsekern parse kerning table  https://www.microsoft.com/typography/otspec/kern.htm
@@ -30,6 +29,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 	t.kern.NTables = nTables
 
+	t.kern.Kerning = make(KernMap)
 	i := uint(0)
 	for i < nTables {
 		err = t.parsekernSubTable(fd)
@@ -44,27 +44,45 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
-	t.Skip(fd, 2+2) //skip version and length
+	begin := fd.Size() - int64(fd.Len())
+
+	_, err := t.ReadUShort(fd) //version
+	if err != nil {
+		return err
+	}
+
+	length, err := t.ReadUShort(fd)
+	if err != nil {
+		return err
+	}
 
 	coverage, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
 	}
 
-	format := coverage & 0xf0
-	//fmt.Printf("format = %d\n", format) //debug
-	t.kern.Kerning = make(KernMap) //init
-	if format == 0 {
-		t.parsekernSubTableFormat0(fd)
-	} else {
-		//not support other format yet
-		return fmt.Errorf("not support kerning format %d", format)
+	//only the space between letters of a horizontal line is adjusted: minimum values,
+	//values across the line, values for vertical text and other formats are passed over
+	format := coverage >> 8
+	if format == 0 && coverage&0x07 == 0x01 {
+		err = t.parsekernSubTableFormat0(fd, coverage&0x08 != 0)
+		if err != nil {
+			return err
+		}
+	}
+
+	//the length is too short for tables with many pairs, it has only 16 bits
+	if next := begin + int64(length); next > fd.Size()-int64(fd.Len()) {
+		_, err = fd.Seek(next, 0)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
 }
 
-func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
+func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader, override bool) error {
 	nPairs, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
@@ -89,11 +107,12 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 		}
 
 		if _, ok := t.kern.Kerning[left]; !ok {
-			kval := make(KernValue)
-			kval[right] = value
-			t.kern.Kerning[left] = kval
-		} else {
-			(t.kern.Kerning[left])[right] = value
+			t.kern.Kerning[left] = make(KernValue)
+		}
+		if override {
+			t.kern.Kerning[left][right] = value
+		} else { //values of several tables add up
+			t.kern.Kerning[left][right] += value
 		}
 		//_ = fmt.Sprintf("nPairs %d left %d right %d value %d\n", nPairs, left, right, value) //debug
 		i++
-- 
2.43.0


From 56c658a7d2d773c1d461c2c2264f0b7d0fd1fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 63/63] fix: a font family with parentheses and the like broke
 the font's objects

---
 minigopdf/strhelper.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/minigopdf/strhelper.go b/minigopdf/strhelper.go
index 18f0614..99dcc93 100644
--- a/minigopdf/strhelper.go
+++ b/minigopdf/strhelper.go
@@ -1,6 +1,8 @@
 package gopdf
 
 import (
+	"bytes"
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -22,7 +24,16 @@ func StrHelperGetStringWidth(str string, fontSize int, ifont IFont) float64 {
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	name = strings.Replace(name, "\x00", "+", -1) //cannot be in a name
+	var buff bytes.Buffer
+	for _, c := range []byte(name) {
+		if c <= ' ' || c > '~' || strings.IndexByte("()<>[]{}%#", c) >= 0 { //would end the name
+			buff.WriteString(fmt.Sprintf("#%02X", c))
+		} else {
+			buff.WriteByte(c)
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0

