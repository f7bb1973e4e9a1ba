From 53533af4085617bd239b0639212e3e5580b12e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:32 +0000
Subject: [PATCH 01/13] fix: return element content verbatim from the parser

Nested tags were written back from the parsed attribute map, so the raw
text of a result changed from run to run, and offsets measured in it did
not match the document being edited.
---
 parser.go | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/parser.go b/parser.go
index 2253de1..fdd5d27 100644
--- a/parser.go
+++ b/parser.go
@@ -247,7 +247,7 @@ func (p *xmlParser) parseElementName() (string, map[string]string, bool) {
 }
 
 // parseElementContent extracts the content between opening and closing tags
-// Returns the text content, handling nested elements and escaping
+// Returns the content exactly as it appears in the source, including nested elements
 func (p *xmlParser) parseElementContent(elementName string) string {
 	// Track nesting depth to prevent stack overflow attacks
 	p.depth++
@@ -258,7 +258,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	}
 	defer func() { p.depth-- }()
 
-	var content strings.Builder
+	contentStart := p.pos
 	// Track element-specific depth for matching tags
 	elementDepth := 1
 
@@ -272,6 +272,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 
 				if next == '/' {
 					// Closing tag
+					closeTagStart := p.pos
 					p.next() // skip '<'
 					p.next() // skip '/'
 					closeName := p.readUntil('>')
@@ -286,45 +287,28 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					if closeName == elementName {
 						elementDepth--
 						if elementDepth == 0 {
-							break
+							return string(p.data[contentStart:closeTagStart])
 						}
 					}
-					content.WriteString("</")
-					content.WriteString(closeName)
-					content.WriteString(">")
 				} else if next == '!' {
 					// Comment or CDATA - include in content for now
-					content.WriteByte(c)
 					p.next()
 				} else {
 					// Opening tag of nested element
 					p.next() // skip '<'
 					nestedName := p.readUntilAny(" \t\n\r/>")
 
-					// Write the opening tag
-					content.WriteString("<")
-					content.WriteString(nestedName)
-
-					// Parse attributes and check for self-closing
-					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
-						content.WriteString(" ")
-						content.WriteString(attrName)
-						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
-						content.WriteString("\"")
-					}
+					// Skip attributes and check for self-closing
+					p.parseAttributes()
 
 					isSelfClosing := false
 					if p.peek() == '/' {
 						p.next()
 						isSelfClosing = true
-						content.WriteString("/")
 					}
 
 					if p.peek() == '>' {
 						p.next()
-						content.WriteString(">")
 					}
 
 					// Only increment elementDepth if this is the same element type we're tracking
@@ -333,16 +317,14 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					}
 				}
 			} else {
-				content.WriteByte(c)
 				p.next()
 			}
 		} else {
-			content.WriteByte(c)
 			p.next()
 		}
 	}
 
-	return content.String()
+	return string(p.data[contentStart:p.pos])
 }
 
 // extractTextContent extracts only text content, stripping out all XML tags
-- 
2.43.0


From 522c77b1baf67f991cb26ed93dc84539bac64913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:46 +0000
Subject: [PATCH 02/13] fix: locate closing tags by parser position when
 editing

Closing tags were assumed to be exactly </name>, so a tag written with
white space before '>' corrupted the document or made Set panic.
---
 builder.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..aae7210 100644
--- a/builder.go
+++ b/builder.go
@@ -171,6 +171,7 @@ type elementLocation struct {
 	endTagPos     int    // Position of '<' in closing tag
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
+	elementEnd    int    // Position after '>' of closing tag (or of a self-closing tag)
 	elementName   string // Name of the element
 	attrs         map[string]string
 	isSelfClosing bool
@@ -223,9 +224,9 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						contentEnd = parser.pos
 						endTagPos = parser.pos
 					} else {
-						_ = parser.parseElementContent(elemName)
+						content := parser.parseElementContent(elemName)
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+						endTagPos = contentStart + len(content) // at '<' of </name>
 						contentEnd = endTagPos
 					}
 					return &elementLocation{
@@ -233,6 +234,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endTagPos:     endTagPos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
+						elementEnd:    parser.pos + baseOffset,
 						elementName:   elemName,
 						attrs:         attrs,
 						isSelfClosing: isSelfClosing,
@@ -273,19 +275,18 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				contentEnd = parser.pos
 				endTagPos = parser.pos
 			} else {
-				startOfContent := parser.pos
-				_ = parser.parseElementContent(elemName)
+				content := parser.parseElementContent(elemName)
 				// parser.pos is now just after the '>' of </name>
 				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+				endTagPos = contentStart + len(content) // at '<' of </name>
 				contentEnd = endTagPos
-				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
+				elementEnd:    parser.pos + baseOffset,
 				elementName:   elemName,
 				attrs:         attrs,
 				isSelfClosing: isSelfClosing,
@@ -518,8 +519,9 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 	}
 
 	// Find where root element ends
-	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentStart := parser.pos
+	content := parser.parseElementContent(elemName)
+	contentEnd := contentStart + len(content)
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1066,8 +1068,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	} else {
 		// Regular element: <tag>content</tag>
 		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
+		b.result.Write(b.data[location.elementEnd:])
 	}
 
 	return nil
-- 
2.43.0


From d63d24bcde80a3b2abd295aa9ce02a982a505253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:40 +0000
Subject: [PATCH 03/13] fix: do not panic on a filter value that is a lone
 quote

A one-character value is both prefixed and suffixed by the quote, so
stripping the quotes sliced past the end of the value.
---
 filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..41ce6d7 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,9 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	// (a lone quote character is both prefix and suffix, so it needs the length check)
+	if len(value) >= 2 && ((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 59c9047d106a6336e6e23ec47b4517dc01e8e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:02 +0000
Subject: [PATCH 04/13] fix: do not let map order decide attribute order or
 lookup

Setting a value in a self-closing element wrote its attributes back in
random order, and a case-insensitive lookup picked a random one of the
attributes whose names differ only in case.
---
 builder.go |  6 ++++--
 get.go     | 21 ++++++++++++++-------
 parser.go  | 13 +++++++++++++
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/builder.go b/builder.go
index aae7210..c5e3ef9 100644
--- a/builder.go
+++ b/builder.go
@@ -494,7 +494,8 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 		// Write attributes if any
 		if len(attrs) > 0 {
-			for k, v := range attrs {
+			for _, k := range sortedAttrNames(attrs) {
+				v := attrs[k]
 				b.result.WriteString(" ")
 				b.result.WriteString(k)
 				b.result.WriteString(`="`)
@@ -607,7 +608,8 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 
 		// Write attributes if any
 		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
+			for _, k := range sortedAttrNames(parentLocation.attrs) {
+				v := parentLocation.attrs[k]
 				b.result.WriteString(" ")
 				b.result.WriteString(k)
 				b.result.WriteString(`="`)
diff --git a/get.go b/get.go
index c97fb46..8627a8d 100644
--- a/get.go
+++ b/get.go
@@ -1157,7 +1157,8 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
+				for _, k := range sortedAttrNames(attrs) {
+					v := attrs[k]
 					if toLowerASCII(k) == attrName {
 						if segIndex+2 < len(segments) {
 							return Result{Type: Null}
@@ -1228,7 +1229,8 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
+							for _, k := range sortedAttrNames(match.attrs) {
+								v := match.attrs[k]
 								if toLowerASCII(k) == attrName {
 									return Result{
 										Type: Attribute,
@@ -1305,7 +1307,8 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
+				for _, k := range sortedAttrNames(match.attrs) {
+					v := match.attrs[k]
 					if toLowerASCII(k) == attrName {
 						if segIndex+2 >= len(segments) {
 							allResults = append(allResults, Result{
@@ -1446,7 +1449,8 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
+						for _, k := range sortedAttrNames(attrs) {
+							v := attrs[k]
 							if toLowerASCII(k) == attrName {
 								if segIndex+2 >= len(segments) {
 									*ctx.results = append(*ctx.results, Result{
@@ -1631,7 +1635,8 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
+				for _, k := range sortedAttrNames(match.attrs) {
+					v := match.attrs[k]
 					if toLowerASCII(k) == attrNameLower {
 						results = append(results, Result{
 							Type: Attribute,
@@ -2081,7 +2086,8 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
+			for _, k := range sortedAttrNames(match.attrs) {
+				v := match.attrs[k]
 				if toLowerASCII(k) == attrName {
 					result := Result{
 						Type: Attribute,
@@ -2172,7 +2178,8 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
+				for _, k := range sortedAttrNames(match.attrs) {
+					v := match.attrs[k]
 					if toLowerASCII(k) == attrName {
 						allResults = append(allResults, Result{
 							Type: Attribute,
diff --git a/parser.go b/parser.go
index fdd5d27..8e4663c 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"sort"
 	"strings"
 )
 
@@ -221,6 +222,18 @@ func (p *xmlParser) parseAttributes() map[string]string {
 	return attrs
 }
 
+// sortedAttrNames returns the attribute names in sorted order. Anything that
+// writes attributes out, or picks one of several attributes whose names differ
+// only in case, uses it so that the outcome does not depend on map order.
+func sortedAttrNames(attrs map[string]string) []string {
+	names := make([]string, 0, len(attrs))
+	for name := range attrs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // parseElementName extracts the element name and attributes from an opening tag
 // Assumes the parser is positioned after the '<' character
 // Returns: elementName, attributes, isSelfClosing, error
-- 
2.43.0


From 50fefc0d47f57b954fd183143238cb8d162f0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:26 +0000
Subject: [PATCH 05/13] fix: expand a self-closing element when setting its
 value

The value was written after the element instead of inside it.
---
 builder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/builder.go b/builder.go
index c5e3ef9..362420d 100644
--- a/builder.go
+++ b/builder.go
@@ -325,6 +325,20 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// Expand <name/> to <name>value</name> so the value ends up inside the element
+		openTag := string(b.data[location.startPos:location.contentStart])
+		b.result.Write(b.data[:location.startPos])
+		b.result.WriteString(strings.TrimSuffix(openTag, "/>"))
+		b.result.WriteString(">")
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.contentEnd:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
-- 
2.43.0


From a71f9ead8aa6e4590192844e6e7e74ebc5f7ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:39 +0000
Subject: [PATCH 06/13] fix: refuse to create path segments that are not
 element names

Set wrote nameless tags such as <>v</> for an index past the end, a
count, a wildcard, a text or a filter segment that matched nothing.
---
 builder.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/builder.go b/builder.go
index 362420d..e20c781 100644
--- a/builder.go
+++ b/builder.go
@@ -435,6 +435,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Special case: empty XML - create new root element
 	if len(b.data) == 0 {
+		if err := validateCreatable(path); err != nil {
+			return err
+		}
 		return b.createSiblingRoot(path, xmlValue, isRaw)
 	}
 
@@ -456,15 +459,32 @@ func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bo
 	}
 
 	if parentDepth == -1 || parentLocation == nil {
+		if err := validateCreatable(path); err != nil {
+			return err
+		}
 		// No parent found in path - need to find root element and append
 		// Skip the first segment if it matches root
 		return b.createInRoot(path, xmlValue, isRaw)
 	}
 
 	// Create missing elements from parentDepth+1 to end
+	if err := validateCreatable(path[parentDepth+1:]); err != nil {
+		return err
+	}
 	return b.createInParent(parentLocation, path[parentDepth+1:], xmlValue, isRaw)
 }
 
+// validateCreatable checks that a path consists of element names only: an index,
+// wildcard, filter or similar segment cannot be created
+func validateCreatable(path []PathSegment) error {
+	for _, seg := range path {
+		if seg.Type != SegmentElement {
+			return fmt.Errorf("%w: cannot create a segment that is not an element name", ErrInvalidPath)
+		}
+	}
+	return nil
+}
+
 // createInRoot creates element path starting from root
 func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Check if we should create a sibling root instead
-- 
2.43.0


From 28a3a47e3d02c4a5c1393dfc46c37512b8d1c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:53 +0000
Subject: [PATCH 07/13] fix: reject raw attribute values that would break out
 of the quotes

---
 builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder.go b/builder.go
index e20c781..d55117a 100644
--- a/builder.go
+++ b/builder.go
@@ -137,6 +137,9 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 	// Check if this is actually an attribute operation
 	if len(path) > 0 && path[len(path)-1].Type == SegmentAttribute {
 		// This is an attribute set, not element set
+		if isRaw && strings.ContainsAny(xmlValue, "<\"") {
+			return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
+		}
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
 
-- 
2.43.0


From e702b9c5abc9b389c5ef5349cb56312a566eeafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:37 +0000
Subject: [PATCH 08/13] fix: apply the result limit when flattening nested
 query results

Each match of a wildcard, recursive wildcard or filter-all query could
add up to the limit by itself, so r.*.* returned far more than
MaxWildcardResults results.
---
 get.go | 72 ++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/get.go b/get.go
index 8627a8d..b741d45 100644
--- a/get.go
+++ b/get.go
@@ -609,7 +609,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 					// More segments - not supported for attributes
 					continue
 				}
-				allResults = append(allResults, Result{
+				allResults = appendResults(allResults, Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
@@ -621,7 +621,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 		// Check if next segment is text content extraction
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -639,9 +639,9 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 			}
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
@@ -706,6 +706,18 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 	}
 }
 
+// appendResults appends to a list of query results without letting it grow
+// beyond MaxWildcardResults; results that do not fit are dropped
+func appendResults(dst []Result, src ...Result) []Result {
+	if len(dst) >= MaxWildcardResults {
+		return dst
+	}
+	if len(src) > MaxWildcardResults-len(dst) {
+		src = src[:MaxWildcardResults-len(dst)]
+	}
+	return append(dst, src...)
+}
+
 // recursiveSearchWithContext performs depth-first search with operation tracking
 // Security: limits recursion depth, result count, and total operations
 func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segments []PathSegment, segIndex int, ctx *searchContext, depth int) {
@@ -750,7 +762,7 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 			// Found a match!
 			if isLastSegment {
 				// This is the final segment - add the result
-				*ctx.results = append(*ctx.results, Result{
+				*ctx.results = appendResults(*ctx.results, Result{
 					Type: Element,
 					Str:  unescapeXML(extractTextContent(content)),
 					Raw:  content,
@@ -764,7 +776,7 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 					if attrValue, ok := attrs[attrName]; ok {
 						// Check if this is the final segment after attribute
 						if segIndex+2 >= len(segments) {
-							*ctx.results = append(*ctx.results, Result{
+							*ctx.results = appendResults(*ctx.results, Result{
 								Type: Attribute,
 								Str:  attrValue,
 								Raw:  attrValue,
@@ -773,7 +785,7 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 					}
 				case SegmentText:
 					textContent := extractDirectTextOnly(content)
-					*ctx.results = append(*ctx.results, Result{
+					*ctx.results = appendResults(*ctx.results, Result{
 						Type: String,
 						Str:  unescapeXML(textContent),
 						Raw:  content,
@@ -790,16 +802,16 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 					result := executeFieldExtraction([]elementMatch{match}, nextSegment)
 					// Field extraction always returns Array (even if empty)
 					if result.Type == Array {
-						*ctx.results = append(*ctx.results, result.Results...)
+						*ctx.results = appendResults(*ctx.results, result.Results...)
 					}
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQuery(contentParser, segments, segIndex+1)
 					if result.Type != Null {
 						if result.Type == Array {
-							*ctx.results = append(*ctx.results, result.Results...)
+							*ctx.results = appendResults(*ctx.results, result.Results...)
 						} else {
-							*ctx.results = append(*ctx.results, result)
+							*ctx.results = appendResults(*ctx.results, result)
 						}
 					}
 				}
@@ -1311,7 +1323,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 					v := match.attrs[k]
 					if toLowerASCII(k) == attrName {
 						if segIndex+2 >= len(segments) {
-							allResults = append(allResults, Result{
+							allResults = appendResults(allResults, Result{
 								Type: Attribute,
 								Str:  v,
 								Raw:  v,
@@ -1323,7 +1335,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 			}
 			if attrValue, ok := match.attrs[attrName]; ok {
 				if segIndex+2 >= len(segments) {
-					allResults = append(allResults, Result{
+					allResults = appendResults(allResults, Result{
 						Type: Attribute,
 						Str:  attrValue,
 						Raw:  attrValue,
@@ -1335,7 +1347,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -1347,9 +1359,9 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 		if result.Type != Null {
 			if result.Type == Array {
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
@@ -1438,7 +1450,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 			}
 
 			if isLastSegment {
-				*ctx.results = append(*ctx.results, Result{
+				*ctx.results = appendResults(*ctx.results, Result{
 					Type: Element,
 					Str:  unescapeXML(extractTextContent(content)),
 					Raw:  content,
@@ -1453,7 +1465,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 							v := attrs[k]
 							if toLowerASCII(k) == attrName {
 								if segIndex+2 >= len(segments) {
-									*ctx.results = append(*ctx.results, Result{
+									*ctx.results = appendResults(*ctx.results, Result{
 										Type: Attribute,
 										Str:  v,
 										Raw:  v,
@@ -1464,7 +1476,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 					} else {
 						if attrValue, ok := attrs[attrName]; ok {
 							if segIndex+2 >= len(segments) {
-								*ctx.results = append(*ctx.results, Result{
+								*ctx.results = appendResults(*ctx.results, Result{
 									Type: Attribute,
 									Str:  attrValue,
 									Raw:  attrValue,
@@ -1474,7 +1486,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 					}
 				case SegmentText:
 					textContent := extractDirectTextOnly(content)
-					*ctx.results = append(*ctx.results, Result{
+					*ctx.results = appendResults(*ctx.results, Result{
 						Type: String,
 						Str:  unescapeXML(textContent),
 						Raw:  content,
@@ -1484,9 +1496,9 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 					if result.Type != Null {
 						if result.Type == Array {
-							*ctx.results = append(*ctx.results, result.Results...)
+							*ctx.results = appendResults(*ctx.results, result.Results...)
 						} else {
-							*ctx.results = append(*ctx.results, result)
+							*ctx.results = appendResults(*ctx.results, result)
 						}
 					}
 				}
@@ -1885,7 +1897,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if attrValue, ok := match.attrs[attrName]; ok {
-				allResults = append(allResults, Result{
+				allResults = appendResults(allResults, Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
@@ -1897,7 +1909,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		// Handle text extraction
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -1918,9 +1930,9 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
@@ -2181,7 +2193,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 				for _, k := range sortedAttrNames(match.attrs) {
 					v := match.attrs[k]
 					if toLowerASCII(k) == attrName {
-						allResults = append(allResults, Result{
+						allResults = appendResults(allResults, Result{
 							Type: Attribute,
 							Str:  v,
 							Raw:  v,
@@ -2191,7 +2203,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 				continue
 			}
 			if attrValue, ok := match.attrs[attrName]; ok {
-				allResults = append(allResults, Result{
+				allResults = appendResults(allResults, Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
@@ -2203,7 +2215,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		// Handle text extraction
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -2224,9 +2236,9 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
-- 
2.43.0


From 28f0ffb89384908ec19ff0361a3c99fafa2ccd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:52 +0000
Subject: [PATCH 09/13] fix: do not let SetRaw return a document that is not
 well-formed

The tag balance check does not look at attribute quoting and accepts an
unterminated closing tag, so some fragments broke the document.
---
 set.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index d9a89fa..079cbee 100644
--- a/set.go
+++ b/set.go
@@ -104,7 +104,17 @@ func SetRaw(xml, path, rawxml string) (string, error) {
 	}
 
 	// Use Set with []byte to insert raw XML
-	return Set(xml, path, []byte(rawxml))
+	result, err := Set(xml, path, []byte(rawxml))
+	if err != nil {
+		return xml, err
+	}
+
+	// The basic validation above does not look at everything (attribute quoting,
+	// stray markup), so make sure the fragment left the document well-formed
+	if !Valid(result) {
+		return xml, fmt.Errorf("%w: raw XML does not leave the document well-formed", ErrInvalidValue)
+	}
+	return result, nil
 }
 
 // validateRawXML performs basic validation on raw XML to prevent injection
-- 
2.43.0


From c9cd4b5011ecf64dad1fd32926438743d4f4cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:56 +0000
Subject: [PATCH 10/13] fix: reject DOCTYPE and ENTITY in SetRaw whatever their
 case

The parser treats <!doctype> like <!DOCTYPE>, but only the upper-case
spelling was rejected.
---
 set.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index 079cbee..101ca2a 100644
--- a/set.go
+++ b/set.go
@@ -189,10 +189,10 @@ func validateRawXML(rawxml string) error {
 					// but we can optionally warn about suspicious patterns
 
 					i = cdataStart + cdataEnd + 3
-				} else if strings.HasPrefix(rawxml[i:], "<!DOCTYPE") {
+				} else if hasPrefixFold(rawxml[i:], "<!DOCTYPE") {
 					// DOCTYPE - REJECT for security
 					return fmt.Errorf("%w: DOCTYPE declarations not allowed in SetRaw", ErrInvalidValue)
-				} else if strings.HasPrefix(rawxml[i:], "<!ENTITY") {
+				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
 				} else {
@@ -249,6 +249,12 @@ func validateRawXML(rawxml string) error {
 	return nil
 }
 
+// hasPrefixFold is like strings.HasPrefix but ignores case, because the parser
+// recognizes declarations in any case
+func hasPrefixFold(s, prefix string) bool {
+	return len(s) >= len(prefix) && strings.EqualFold(s[:len(prefix)], prefix)
+}
+
 // SetMany performs multiple Set operations, applying each modification
 // sequentially. This is more convenient than calling Set multiple times manually.
 // If multiple paths overlap, later operations take precedence.
-- 
2.43.0


From 7324b306f25646b0dcbaf6236d5120630c2ccae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:27 +0000
Subject: [PATCH 11/13] fix: check the pattern complexity limit before
 allocating the table

A long value matched against a long pattern allocated the full table,
gigabytes in the worst case, only to give up after the first steps.
---
 internal/pattern/match.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/pattern/match.go b/internal/pattern/match.go
index 6a50fb2..85626a9 100644
--- a/internal/pattern/match.go
+++ b/internal/pattern/match.go
@@ -49,6 +49,12 @@ func Match(str, pattern string, maxIterations int) (matched, stopped bool) {
 	p, escapes := processEscapes(p)
 	pLen := len(p)
 
+	// Security: the table below has one cell per step, so stop before
+	// allocating it when filling it would exceed the limit anyway
+	if sLen*pLen > maxIterations {
+		return false, true
+	}
+
 	// DP table: dp[i][j] = whether s[0:i] matches p[0:j]
 	dp := make([][]bool, sLen+1)
 	for i := range dp {
-- 
2.43.0


From a8639349e70c62a596610015e663af0d49ebf90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:04 +0000
Subject: [PATCH 12/13] fix: make the raw fragment check skip quoted values and
 real comments only

Quoted attribute values containing '>' or '/>' and text such as '<!->' were
scanned differently from the validator, so a fragment could close the element
it was inserted into. An unterminated closing tag was accepted as well.
---
 set.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/set.go b/set.go
index 101ca2a..a78b07d 100644
--- a/set.go
+++ b/set.go
@@ -158,19 +158,20 @@ func validateRawXML(rawxml string) error {
 				for i < len(rawxml) && rawxml[i] != '>' {
 					i++
 				}
-				if i < len(rawxml) {
-					i++ // Skip '>'
+				if i >= len(rawxml) {
+					return ErrInvalidValue
 				}
+				i++ // Skip '>'
 				continue
 			} else if next == '!' || next == '?' {
 				// Comment, CDATA, or PI - skip
-				if i+2 < len(rawxml) && rawxml[i+2] == '-' {
-					// Comment: <!--
-					endPos := strings.Index(rawxml[i:], "-->")
+				if strings.HasPrefix(rawxml[i:], "<!--") {
+					// Comment: <!-- (the terminator cannot overlap the start)
+					endPos := strings.Index(rawxml[i+4:], "-->")
 					if endPos == -1 {
 						return ErrInvalidValue
 					}
-					i += endPos + 3
+					i += 4 + endPos + 3
 				} else if strings.HasPrefix(rawxml[i:], "<![CDATA[") {
 					// CDATA - validate no nested CDATA or suspicious patterns
 					cdataStart := i + 9
@@ -221,6 +222,15 @@ func validateRawXML(rawxml string) error {
 			// Check for self-closing
 			isSelfClosing := false
 			for i < len(rawxml) {
+				if rawxml[i] == '"' || rawxml[i] == '\'' {
+					// Quoted attribute value - may contain '>' or "/>"
+					endQuote := strings.IndexByte(rawxml[i+1:], rawxml[i])
+					if endQuote == -1 {
+						return ErrInvalidValue
+					}
+					i += 1 + endQuote + 1
+					continue
+				}
 				if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {
 					isSelfClosing = true
 					i += 2
-- 
2.43.0


From f3dafb31cdcd0fd3e555d015e3d1556df2f24be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:10 +0000
Subject: [PATCH 13/13] fix: apply path modifiers once to the complete result
 instead of dropping them for wildcards, indexes and options

---
 get.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/get.go b/get.go
index b741d45..9528f23 100644
--- a/get.go
+++ b/get.go
@@ -91,7 +91,26 @@ func GetBytes(xml []byte, path string) Result {
 	parser := newXMLParser(xml)
 
 	// Execute the query
-	return executeQuery(parser, segments, 0)
+	mods := detachModifiers(segments)
+	return finishQuery(executeQuery(parser, segments, 0), mods)
+}
+
+// detachModifiers removes and returns the modifiers at the end of a path, so that
+// they are applied once to the complete result and not in the middle of a search.
+// The segments must not be shared with the path cache.
+func detachModifiers(segments []PathSegment) []string {
+	last := len(segments) - 1
+	mods := segments[last].Modifiers
+	segments[last].Modifiers = nil
+	return mods
+}
+
+// finishQuery applies the modifiers of a path to the result of its query.
+func finishQuery(result Result, mods []string) Result {
+	if len(mods) == 0 || result.Type == Null {
+		return result
+	}
+	return applyModifiers(result, mods)
 }
 
 const (
@@ -880,7 +899,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 			return Result{Type: Null}
 		}
 		parser := newXMLParser(xml)
-		return executeQuery(parser, segments, 0)
+		mods := detachModifiers(segments)
+		return finishQuery(executeQuery(parser, segments, 0), mods)
 	}
 
 	// Parse path with options-aware parsing
@@ -893,7 +913,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 	parser := newXMLParser(xml)
 
 	// Execute query with options
-	return executeQueryWithOptions(parser, segments, 0, opts)
+	mods := detachModifiers(segments)
+	return finishQuery(executeQueryWithOptions(parser, segments, 0, opts), mods)
 }
 
 // parsePathWithOptions parses a path with options-aware parsing.
-- 
2.43.0

