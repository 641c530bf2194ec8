From 75a9bf6487ebfd0e64aed1c2e14e9390c60a4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 01/36] fix: split comma separated header fields into their
 elements

The Accept, Accept-Charset, Accept-Encoding, Accept-Features and Negotiate
headers are list-based fields (RFC 7230 section 7), so 'a, b' on one line
means the same as 'a' and 'b' on two. Each line was parsed as one element,
which rejected or misread every ordinary multi-valued header.
---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/list.go            | 61 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 66 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/list.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..484a0af 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range listElements(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..fddd917 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range listElements(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..f36130c 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range listElements(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..406a6bf 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range listElements(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/list.go b/internal/header/list.go
new file mode 100644
index 0000000..5aaf6dc
--- /dev/null
+++ b/internal/header/list.go
@@ -0,0 +1,61 @@
+/* Copyright 2020 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// listElements retrieves the elements of the list-based header field that was
+// received as the provided field lines. A field line may contain several comma
+// separated elements.
+//
+// https://tools.ietf.org/html/rfc7230#section-7
+func listElements(lines []string) []string {
+	var elements []string
+	for _, line := range lines {
+		parts := splitUnquoted(line, ',')
+		for _, part := range parts {
+			part = strings.Trim(part, " \t")
+			// empty elements between commas do not count.
+			if part == "" && len(parts) > 1 {
+				continue
+			}
+			elements = append(elements, part)
+		}
+	}
+	return elements
+}
+
+// splitUnquoted splits the provided string at each separator that is not
+// contained within a quoted string.
+func splitUnquoted(s string, sep byte) []string {
+	var (
+		parts  []string
+		start  int
+		quoted bool
+	)
+	for i := 0; i < len(s); i++ {
+		switch {
+		case quoted && s[i] == '\\':
+			i++
+		case s[i] == '"':
+			quoted = !quoted
+		case !quoted && s[i] == sep:
+			parts = append(parts, s[start:i])
+			start = i + 1
+		}
+	}
+	return append(parts, s[start:])
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..e390c1e 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range listElements(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From 182fb1e214019188a483d2c883bff7b0e7aacb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 02/36] fix: do not match the weight of a media range against
 media type parameters

A media range with a parameter and a weight ('text/html;level=1;q=0.5') never
matched anything, because the media type was required to carry the parameter
q=0.5 as well.
---
 internal/header/media_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..a986970 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,10 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the weight is not a media type parameter.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
-- 
2.43.0


From 6a47a1513f83fa74462c46866d834ec7d78f9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 03/36] fix: let the most specific range decide whether a
 representation is acceptable

RFC 7231 sections 5.3.2 to 5.3.5: the most specific range that matches takes
precedence, and a weight of 0 means not acceptable. The range with the highest
weight was used instead, so 'text/html;q=0, */*' served text/html, and the
strict mode check treated a match with weight 0 as acceptable.
---
 internal/header/accept.go          | 25 +++++++++++++++++---
 internal/header/accept_charset.go  | 19 ++++++++++++---
 internal/header/accept_encoding.go | 17 +++++++++++++
 internal/header/accept_language.go | 26 ++++++++++++++++----
 internal/header/language_range.go  | 12 ++++++++++
 internal/header/media_range.go     | 10 ++++++++
 proactive/apache_httpd.go          | 38 ++++++++----------------------
 transparent/rvsa.go                | 30 ++++++++---------------
 8 files changed, 119 insertions(+), 58 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 484a0af..c073277 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -77,9 +77,28 @@ func (a Accept) MediaRanges() []MediaRange {
 // Compatible determines if the provided media type is compatible with any
 // of the media ranges within the Accept header value.
 func (a Accept) Compatible(mediaType string) (c bool, err error) {
-	for _, r := range a.MediaRanges() {
-		if c, err = r.Compatible(mediaType); err != nil || c {
-			return
+	r, c, err := a.Match(mediaType)
+	return c && r.QualityValue() != QualityValueMinimum, err
+}
+
+// Match retrieves the media range that applies to the provided media type,
+// which is the most specific one it is compatible with.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.2
+func (a Accept) Match(mediaType string) (match MediaRange, ok bool, err error) {
+	for _, r := range a {
+		var c bool
+		if c, err = r.Compatible(mediaType); err != nil {
+			return MediaRange{}, false, err
+		}
+		if !c {
+			continue
+		}
+		moreSpecific := r.specificity() > match.specificity()
+		preferred := r.specificity() == match.specificity() &&
+			r.QualityValue() > match.QualityValue()
+		if !ok || moreSpecific || preferred {
+			match, ok = r, true
 		}
 	}
 	return
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index fddd917..44c6d51 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -74,9 +74,22 @@ func (c AcceptCharset) CharsetRanges() []CharsetRange {
 // Compatible determines if the provided charset is compatible with any
 // of the charset ranges within the Accept-Charset header value.
 func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
-	for _, r := range c.CharsetRanges() {
-		if cc = r.Compatible(charset); err != nil || cc {
-			return
+	r, cc := c.Match(charset)
+	return cc && r.QualityValue() != QualityValueMinimum, nil
+}
+
+// Match retrieves the charset range that applies to the provided charset. A
+// range that mentions the charset applies over a wildcard.
+func (c AcceptCharset) Match(charset string) (match CharsetRange, ok bool) {
+	for _, r := range c {
+		if !r.Compatible(charset) {
+			continue
+		}
+		moreSpecific := match.IsWildcard() && !r.IsWildcard()
+		preferred := match.IsWildcard() == r.IsWildcard() &&
+			r.QualityValue() > match.QualityValue()
+		if !ok || moreSpecific || preferred {
+			match, ok = r, true
 		}
 	}
 	return
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index f36130c..fdff1c0 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -68,6 +68,23 @@ func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
 	return e
 }
 
+// Match retrieves the coding range that applies to the provided content
+// coding. A range that mentions the coding applies over a wildcard.
+func (e AcceptEncoding) Match(coding string) (match ContentCodingRange, ok bool) {
+	for _, r := range e {
+		if !r.Compatible(coding) {
+			continue
+		}
+		moreSpecific := match.IsWildcard() && !r.IsWildcard()
+		preferred := match.IsWildcard() == r.IsWildcard() &&
+			r.QualityValue() > match.QualityValue()
+		if !ok || moreSpecific || preferred {
+			match, ok = r, true
+		}
+	}
+	return
+}
+
 // IsEmpty indicates if the Accept-Encoding header is empty.
 func (e AcceptEncoding) IsEmpty() bool {
 	return len(e) == len(EmptyAcceptEncoding)
diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..dddad6e 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -86,12 +86,30 @@ func (l AcceptLanguage) LanguageRanges() []LanguageRange {
 // Compatible determines if the provided language is compatible with any
 // of the language ranges within the Accept-Language header value.
 func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
-	for _, r := range l.LanguageRanges() {
-		if c = r.Compatible(language); err != nil || c {
-			return
+	i := l.Match(language)
+	return i != -1 && l[i].QualityValue() != QualityValueMinimum, nil
+}
+
+// Match retrieves the position of the language range that applies to the
+// provided language, or -1 if there is none. A range that mentions the exact
+// language applies over one that is merely compatible, which in turn applies
+// over a wildcard.
+func (l AcceptLanguage) Match(language string) int {
+	match := -1
+	for i, r := range l {
+		if !r.Compatible(language) {
+			continue
+		}
+		if match == -1 {
+			match = i
+			continue
+		}
+		rs, ms := r.specificity(language), l[match].specificity(language)
+		if rs > ms || (rs == ms && r.QualityValue() > l[match].QualityValue()) {
+			match = i
 		}
 	}
-	return
+	return match
 }
 
 // String provides a textual representation of the Accept-Language header.
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..321b65c 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -114,6 +114,18 @@ func (lr LanguageRange) Compatible(tag string) bool {
 	return i != 0
 }
 
+// specificity determines how specific the language range is with respect to
+// the provided language tag it is compatible with.
+func (lr LanguageRange) specificity(tag string) int {
+	if lr.IsWildcard() {
+		return 0
+	}
+	if t, err := language.Parse(tag); err == nil && t.String() == lr.Tag() {
+		return 2
+	}
+	return 1
+}
+
 // String provides a textual representation of the language range.
 func (lr LanguageRange) String() string {
 	return fmt.Sprintf("%s;q=%s", lr.lrange, lr.QualityValue().String())
diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index a986970..baf7780 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -176,6 +176,16 @@ func (mr MediaRange) Precedence() int {
 	return 2 + len(mr.params)
 }
 
+// specificity determines how specific the media range is. The weight is not a
+// media type parameter, so it doesn't make a media range more specific.
+func (mr MediaRange) specificity() int {
+	s := mr.Precedence()
+	if _, ok := mr.params["q"]; ok {
+		s--
+	}
+	return s
+}
+
 // String provides the textual representation of the media range.
 func (mr MediaRange) String() string {
 	var params []string
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..f8bb50d 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -293,14 +293,8 @@ func (c httpd) acceptQuality(
 	qt := header.QualityValueMinimum
 	if rep.ContentType() == "" || accept.IsEmpty() {
 		qt = header.QualityValueMaximum
-	} else {
-		for _, mr := range accept.MediaRanges() {
-			compatible, err := mr.Compatible(rep.ContentType())
-			if compatible && err == nil {
-				qt = mr.QualityValue()
-				break
-			}
-		}
+	} else if mr, ok, err := accept.Match(rep.ContentType()); ok && err == nil {
+		qt = mr.QualityValue()
 	}
 	return qt
 }
@@ -314,13 +308,8 @@ func (c httpd) acceptCharsetQuality(
 	qc := header.QualityValueMinimum
 	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
 		qc = header.QualityValueMaximum
-	} else {
-		for _, c := range acceptCharset.CharsetRanges() {
-			if c.Compatible(rep.ContentCharset()) {
-				qc = c.QualityValue()
-				break
-			}
-		}
+	} else if c, ok := acceptCharset.Match(rep.ContentCharset()); ok {
+		qc = c.QualityValue()
 	}
 	return qc
 }
@@ -335,14 +324,9 @@ func (c httpd) acceptLanguageQuality(
 	var los int
 	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
 		ql = header.QualityValueMaximum
-	} else {
-		for idx, lr := range acceptLanguage {
-			if lr.Compatible(rep.ContentLanguage()) {
-				ql = lr.QualityValue()
-				los = len(acceptLanguage) - idx
-				break
-			}
-		}
+	} else if idx := acceptLanguage.Match(rep.ContentLanguage()); idx != -1 {
+		ql = acceptLanguage[idx].QualityValue()
+		los = len(acceptLanguage) - idx
 	}
 	return ql, los
 }
@@ -356,11 +340,9 @@ func (c httpd) acceptEncodingQuality(
 	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
 		return header.QualityValueMaximum
 	}
-	for _, c := range acceptEncoding.CodingRanges() {
-		for _, e := range rep.ContentEncoding() { // TODO(FREER)
-			if c.Compatible(e) {
-				return c.QualityValue()
-			}
+	for _, e := range rep.ContentEncoding() { // TODO(FREER)
+		if c, ok := acceptEncoding.Match(e); ok {
+			return c.QualityValue()
 		}
 	}
 	return header.QualityValueMinimum
diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..48a8c94 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -128,14 +128,10 @@ func (c rvsa1) acceptQuality(
 		return header.QualityValueMaximum, true
 	}
 	qt := header.QualityValueMinimum
-	for _, mr := range accept.MediaRanges() {
-		compatible, err := mr.Compatible(rep.ContentType())
-		if compatible && err == nil {
-			qt = mr.QualityValue()
-			if mr.Type() == "*" || mr.SubType() == "*" {
-				usedWildcard = true
-			}
-			break
+	if mr, ok, err := accept.Match(rep.ContentType()); ok && err == nil {
+		qt = mr.QualityValue()
+		if mr.Type() == "*" || mr.SubType() == "*" {
+			usedWildcard = true
 		}
 	}
 	return qt, usedWildcard
@@ -155,12 +151,9 @@ func (c rvsa1) acceptLanguageQuality(
 		return header.QualityValueMaximum, true
 	}
 	ql := header.QualityValueMinimum
-	for _, lr := range acceptLanguage {
-		if lr.Compatible(rep.ContentLanguage()) {
-			ql = lr.QualityValue()
-			usedWildcard = lr.IsWildcard()
-			break
-		}
+	if idx := acceptLanguage.Match(rep.ContentLanguage()); idx != -1 {
+		ql = acceptLanguage[idx].QualityValue()
+		usedWildcard = acceptLanguage[idx].IsWildcard()
 	}
 	return ql, usedWildcard
 }
@@ -179,12 +172,9 @@ func (c rvsa1) acceptCharsetQuality(
 		return header.QualityValueMaximum, true
 	}
 	qc := header.QualityValueMinimum
-	for _, c := range acceptCharset.CharsetRanges() {
-		if c.Compatible(rep.ContentCharset()) {
-			qc = c.QualityValue()
-			usedWildcard = c.IsWildcard()
-			break
-		}
+	if c, ok := acceptCharset.Match(rep.ContentCharset()); ok {
+		qc = c.QualityValue()
+		usedWildcard = c.IsWildcard()
 	}
 	return qc, usedWildcard
 }
-- 
2.43.0


From c5bb0f791e2d013efcdf72b40b484013908da44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 04/36] fix: honour wildcards and weights of 0 in the
 Accept-Language header

The parser relied on turns '*' into the tag 'mul', which matches nothing, and
drops the ranges having a weight of 0, so neither '*' nor 'fr;q=0' had the
meaning given to them by RFC 7231 section 5.3.5.
---
 internal/header/accept_language.go | 40 ++++++++++++++++++++++--------
 internal/header/quality_value.go   | 16 ++++++++++++
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index dddad6e..5ae8bf4 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -48,23 +48,41 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	if len(acceptLanguage) == 0 {
 		return EmptyAcceptLanguage, nil
 	}
-	tags, qValues, err := language.ParseAcceptLanguage(strings.Join(acceptLanguage, ","))
-	if err != nil {
-		return EmptyAcceptLanguage, err
-	}
-
 	var ranges []LanguageRange
-	for i := 0; i < len(tags); i++ {
-		qv, err := NewQualityValue(qValues[i])
+	for _, e := range listElements(acceptLanguage) {
+		if e == "" {
+			continue
+		}
+		// NOTE: language.ParseAcceptLanguage handles neither wildcards nor
+		// weights of 0, so it is only relied on for parsing the language tag.
+		lrange, weight, hasWeight := strings.Cut(e, ";")
+		lrange = strings.TrimSpace(lrange)
+		tags, _, err := language.ParseAcceptLanguage(lrange)
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
-		ranges = append(ranges, LanguageRange{
-			lrange: tags[i].String() + ";q=" + qv.String(),
-			tag:    tags[i],
+		if len(tags) != 1 {
+			return EmptyAcceptLanguage, ErrEmptyLanguageRange
+		}
+		qv := QualityValueDefault
+		if hasWeight {
+			if qv, err = parseWeight(weight); err != nil {
+				return EmptyAcceptLanguage, err
+			}
+		}
+		lr := LanguageRange{
+			lrange: tags[0].String() + ";q=" + qv.String(),
+			tag:    tags[0],
 			qValue: qv,
-		})
+		}
+		if lrange == "*" {
+			lr.lrange = lrange
+		}
+		ranges = append(ranges, lr)
 	}
+	sort.SliceStable(ranges, func(first, second int) bool {
+		return ranges[first].QualityValue() > ranges[second].QualityValue()
+	})
 	return AcceptLanguage(ranges), nil
 }
 
diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..5e345f7 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -19,6 +19,8 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"strconv"
+	"strings"
 )
 
 // QualityValue represents a relative weight associated with proactive
@@ -59,6 +61,20 @@ func NewQualityValue(qvalue float32) (QualityValue, error) {
 	return QualityValue(qvalue), nil
 }
 
+// parseWeight parses a quality value from the textual representation of a
+// weight parameter, such as "q=0.5".
+func parseWeight(weight string) (QualityValue, error) {
+	name, value, _ := strings.Cut(weight, "=")
+	if !strings.EqualFold(strings.TrimSpace(name), "q") {
+		return QualityValue(0), ErrInvalidQualityValue
+	}
+	q, err := strconv.ParseFloat(strings.TrimSpace(value), 32)
+	if err != nil {
+		return QualityValue(0), err
+	}
+	return NewQualityValue(float32(q))
+}
+
 // Equals determines if the provided quality value is equivalent.
 func (qv QualityValue) Equals(q QualityValue) bool {
 	// Per https://tools.ietf.org/html/rfc7231#section-5.3.1, quality values
-- 
2.43.0


From c400c53c983f5227e9e787882e1b0e5ccf179954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 05/36] fix: refuse weights that are not a number

'q=NaN' passed the range check and poisoned every comparison made with it.
---
 internal/header/quality_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index 5e345f7..6195a97 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -55,7 +55,7 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 func NewQualityValue(qvalue float32) (QualityValue, error) {
 	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
 		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	if tooLow || tooHigh || math.IsNaN(float64(qvalue)) {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From 20078f66601afc5d1557b3ffa8b947188f04ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 06/36] fix: do not fail strict mode when there is nothing to
 satisfy

A representation that doesn't declare a media type, language or charset, and
a header that is absent or empty, were counted as not acceptable (or raised an
error), although the algorithm considers them as acceptable.
---
 proactive/proactive.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 543b552..c9bc55e 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -170,9 +170,9 @@ func (n Negotiator) Negotiate(
 	}
 
 	var (
-		accept         = header.DefaultAccept
-		acceptLanguage = header.DefaultAcceptLanguage
-		acceptCharset  = header.DefaultAcceptCharset
+		accept         = header.EmptyAccept
+		acceptLanguage = header.EmptyAcceptLanguage
+		acceptCharset  = header.EmptyAcceptCharset
 		ac, alc, acc   = 0, 0, 0
 		hasHeader      bool
 		headerValues   []string
@@ -194,19 +194,25 @@ func (n Negotiator) Negotiate(
 	}
 	for _, r := range reps {
 		var c bool
-		if c, err = accept.Compatible(r.ContentType()); err != nil {
+		if accept.IsEmpty() || r.ContentType() == "" {
+			// there is nothing to satisfy.
+		} else if c, err = accept.Compatible(r.ContentType()); err != nil {
 			return err
 		} else if !c {
 			ac++
 		}
 
-		if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
+		if acceptLanguage.IsEmpty() || r.ContentLanguage() == "" {
+			// there is nothing to satisfy.
+		} else if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
 			return err
 		} else if !c {
 			alc++
 		}
 
-		if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
+		if acceptCharset.IsEmpty() || r.ContentCharset() == "" {
+			// there is nothing to satisfy.
+		} else if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
 			return err
 		} else if !c {
 			acc++
-- 
2.43.0


From f76ee72a977ee57c6dcbe5dac8a2f012185eca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 07/36] fix: tolerate undeclared media types when selecting the
 highest level

Two candidates that do not declare a media type made the negotiation fail with
'mime: no media type', although the media type of neither is constrained.
---
 proactive/apache_httpd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index f8bb50d..4cb6d59 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -257,6 +257,9 @@ var (
 	bestLevel filter = func(variants representation.Set) (representation.Set, error) {
 		var htmlWithLevel []hwl
 		for _, v := range variants {
+			if v.ContentType() == "" {
+				continue
+			}
 			mt, p, err := mime.ParseMediaType(v.ContentType())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 3b9a9a5c3f571577426005d16c65defd28468031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 08/36] fix: select only the variants with the highest level

All variants having a level remained candidates, so a later step of the
algorithm could choose a lower level over the highest one.
---
 proactive/apache_httpd.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 4cb6d59..8fdb2c9 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -275,11 +275,13 @@ var (
 		}
 		var htmlVariants representation.Set
 		if len(htmlWithLevel) > 0 {
-			sort.Slice(htmlWithLevel, func(i, j int) bool {
+			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From f89e055dcf4b93f0ca709df2bccc2a36e55ac853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 09/36] fix: prefer the language that comes first in the
 Accept-Language header

The language order score is highest for the first language of the header, but
the variants having the lowest score were selected.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 8fdb2c9..7267051 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From 6b0e702e3c3af6a8094ef7cf64172e2d4143c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 10/36] fix: keep the order of equally ranked variants

An unstable sort made the choice among equally good variants depend on the
sort implementation instead of the order in which they were supplied.
---
 representation/set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/representation/set.go b/representation/set.go
index 977dc93..3fd2833 100644
--- a/representation/set.go
+++ b/representation/set.go
@@ -41,9 +41,10 @@ func (s Set) AsSlice() []RankedRepresentation {
 	return s
 }
 
-// Sort sorts the representation set based on the provided less function.
+// Sort sorts the representation set based on the provided less function, while
+// keeping the original order of equal elements.
 func (s Set) Sort(less func(i, j int) bool) {
-	sort.Slice(s, less)
+	sort.SliceStable(s, less)
 }
 
 // First task the first element of the representation set. Must check if
-- 
2.43.0


From c76d9fac1b06049d770d692f5be1e7e0c31f96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 11/36] fix: require every content coding of a representation
 to be acceptable

Having one acceptable coding was enough for a representation with several
codings, and a representation without any coding ('identity') was eliminated
unless the Accept-Encoding header mentioned it, contrary to RFC 7231 section
5.3.4.
---
 proactive/apache_httpd.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 7267051..8cd051e 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -345,14 +345,29 @@ func (c httpd) acceptEncodingQuality(
 	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
 		return header.QualityValueMaximum
 	}
-	for _, e := range rep.ContentEncoding() { // TODO(FREER)
+	qe := header.QualityValueMaximum
+	for _, e := range rep.ContentEncoding() {
+		q := header.QualityValueMinimum
 		if c, ok := acceptEncoding.Match(e); ok {
-			return c.QualityValue()
+			q = c.QualityValue()
+		} else if strings.EqualFold(e, "identity") {
+			// identity is acceptable unless excluded, but not preferred.
+			q = identityQualityValue
+		}
+		// each coding that has been applied must be acceptable.
+		if q < qe {
+			qe = q
 		}
 	}
-	return header.QualityValueMinimum
+	return qe
 }
 
+// identityQualityValue is the quality value of the identity content coding
+// when it isn't mentioned by the Accept-Encoding header.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.4
+const identityQualityValue header.QualityValue = 0.001
+
 type hwl struct {
 	v representation.RankedRepresentation
 	l int
-- 
2.43.0


From 5537429430d4b938a1c843b2d92fcc5c5c158b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 12/36] fix: recognize the br and zstd content codings

These are registered content codings that ordinary browsers send, yet their
presence in the Accept-Encoding header failed the negotiation.
---
 internal/header/content_coding_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..7f61267 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -34,6 +34,8 @@ var (
 	compress  = "compress"
 	xcompress = "x-compress"
 	identity  = "identity"
+	brotli    = "br"
+	zstandard = "zstd"
 
 	contentCodings = []string{
 		gzip,
@@ -42,6 +44,8 @@ var (
 		compress,
 		xcompress,
 		identity,
+		brotli,
+		zstandard,
 		"*",
 	}
 
-- 
2.43.0


From 4592bdf64e094fec6345e8eb8424721998d81266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 13/36] fix: parse the whole weight of a content coding

Only the fraction of the weight was parsed, so 'gzip;q=1' and 'gzip;q=1.0'
had a weight of 0 and made gzip not acceptable, and 'gzip;q=2.5' passed.
---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 7f61267..a9ab805 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -94,7 +94,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From 536525cd67adfeefc22e77308204baf4ae8a9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 14/36] fix: accept every valid spelling of charset and content
 coding ranges

The grammars rejected charsets such as 'Shift_JIS', optional whitespace ahead
of the weight, the name 'Q', weights such as '1.', and content codings that
aren't lowercase.
---
 internal/header/charset_range.go        | 2 +-
 internal/header/content_coding_range.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 3c21d93..954a14a 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9!#$%&'+.^_|~-]+|\*)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index a9ab805..e7fd98d 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -25,7 +25,7 @@ import (
 	"github.com/stretchr/stew/slice"
 )
 
-var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	gzip      = "gzip"
@@ -88,7 +88,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)
 
-	if !slice.ContainsString(contentCodings, groups[1]) {
+	if !slice.ContainsString(contentCodings, strings.ToLower(groups[1])) {
 		return ContentCodingRange{}, ErrInvalidContentCodingRange
 	}
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
-- 
2.43.0


From 2f225811f2b1c29058b2789d3d4ca443d6a65f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 15/36] fix: respond with 204 to transparent negotiation
 without representations

The list response panicked when there was no representation to fall back to.
The proactive and reactive negotiators respond with 204 No Content.
---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..857f485 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -127,6 +127,13 @@ func (n Negotiator) Negotiate(
 		}
 	}()
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return nil
+	}
+
 	if len(reps) > n.maximumVariantListSize {
 		return ErrVariantListSizeExceeded
 	}
-- 
2.43.0


From 1df20517334d905f67840786be40e7ba465d7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 16/36] fix: count multiple choices responses only

A 204 No Content response was counted as multiple choices as well.
---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From f56107b177e9f2c7bfba6f8dd35515e0c2bf9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 17/36] fix: replace the response headers instead of adding to
 them

Content-Length, Content-Type and the other headers that describe the body were
sent twice, with contradicting values, if a middleware had set a default.
---
 proactive/proactive.go     | 22 +++++++++++-----------
 reactive/reactive.go       | 10 +++++-----
 transparent/transparent.go | 30 +++++++++++++++---------------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index c9bc55e..b9cace8 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -273,12 +273,12 @@ func (n Negotiator) acceptable(
 	if ctx.IsCreation {
 		status = http.StatusCreated
 	}
-	ctx.ResponseWriter.Header().Add("Content-Location", (&loc).String())
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Content-Location", (&loc).String())
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("acceptable",
@@ -347,11 +347,11 @@ func (n Negotiator) notAcceptable(
 		cc     = chosen.ContentCharset()
 		status = http.StatusNotAcceptable
 	)
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("not acceptable",
diff --git a/reactive/reactive.go b/reactive/reactive.go
index b42058b..b2a79a9 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -127,11 +127,11 @@ func (n Negotiator) Negotiate(
 		cc     = rep.ContentCharset()
 		status = http.StatusMultipleChoices
 	)
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("multiple choices",
diff --git a/transparent/transparent.go b/transparent/transparent.go
index 857f485..80e5bdd 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -279,13 +279,13 @@ func (n Negotiator) listResponse(
 		tcn        = t.ValuesAsString()
 		status     = http.StatusMultipleChoices
 	)
-	ctx.ResponseWriter.Header().Add("Alternates", alternates)
-	ctx.ResponseWriter.Header().Add("TCN", tcn)
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Alternates", alternates)
+	ctx.ResponseWriter.Header().Set("TCN", tcn)
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("list response",
@@ -342,14 +342,14 @@ func (n Negotiator) choiceResponse(
 		loc        = rep.ContentLocation()
 		status     = http.StatusOK
 	)
-	ctx.ResponseWriter.Header().Add("Alternates", alternates)
-	ctx.ResponseWriter.Header().Add("TCN", tcn)
-	ctx.ResponseWriter.Header().Add("Content-Location", (&loc).String())
-	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
-	ctx.ResponseWriter.Header().Add("Content-Type", ct)
-	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
-	ctx.ResponseWriter.Header().Add("Content-Language", clang)
-	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
+	ctx.ResponseWriter.Header().Set("Alternates", alternates)
+	ctx.ResponseWriter.Header().Set("TCN", tcn)
+	ctx.ResponseWriter.Header().Set("Content-Location", (&loc).String())
+	ctx.ResponseWriter.Header().Set("Content-Length", strconv.Itoa(clen))
+	ctx.ResponseWriter.Header().Set("Content-Type", ct)
+	ctx.ResponseWriter.Header().Set("Content-Encoding", ce)
+	ctx.ResponseWriter.Header().Set("Content-Language", clang)
+	ctx.ResponseWriter.Header().Set("Content-Charset", cc)
 	ctx.ResponseWriter.WriteHeader(status)
 	if _, err = ctx.ResponseWriter.Write(b); err == nil {
 		n.logger.Info("choice response",
-- 
2.43.0


From 959aa664ce3196bf73db6fa3c042f9ef6f6fea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 18/36] fix: disregard unsatisfied headers when strict mode is
 disabled

The algorithm eliminates the representations that aren't acceptable, so the
response was 406 Not Acceptable even if strict mode was disabled for the header
that none of them satisfies.
---
 proactive/proactive.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index b9cace8..0852b05 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -237,6 +237,28 @@ func (n Negotiator) Negotiate(
 		return err
 	}
 
+	// without strict mode, the headers that none of the representations
+	// satisfy must not prevent one of them from being chosen.
+	var disregarded []string
+	if len(reps) == ac {
+		disregarded = append(disregarded, "Accept")
+	}
+	if len(reps) == alc {
+		disregarded = append(disregarded, "Accept-Language")
+	}
+	if len(reps) == acc {
+		disregarded = append(disregarded, "Accept-Charset")
+	}
+	if rep == nil && len(disregarded) > 0 {
+		request := ctx.Request.Clone(ctx.Request.Context())
+		for _, h := range disregarded {
+			delete(request.Header, h)
+		}
+		if rep, err = n.chooser.Choose(request, reps...); err != nil {
+			return err
+		}
+	}
+
 	if rep == nil {
 		return n.notAcceptable(ctx, reps...)
 	}
-- 
2.43.0


From 936324cb8db27da5d0cc619a74de59e6bffaa2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 19/36] fix: compare neighboring URLs up to the last slash of
 their paths

A query on either URL prevented a variant from being recognized as a neighbor,
and the default port of https was taken to be 80.
---
 transparent/transparent.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 80e5bdd..18d7eaa 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -189,7 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
+				port := 80
+				if strings.EqualFold(u.Scheme, "https") {
+					port = 443
+				}
+				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
 			}
 			return u
 		}
@@ -229,6 +233,8 @@ func (n Negotiator) Negotiate(
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
 				u.Path = u.Path[:lastSlash]
 			}
+			// the query and fragment come after the last slash.
+			u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 502c0594965dc4dbd68bf7ccc481303a8a8778af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 20/36] fix: recognize feature predicate bags that have quality
 factors

A feature list element such as '[ a b ];+1.5-0.5' was parsed as a predicate
since it doesn't end with a bracket, and repeated spaces in a bag were
rejected.
---
 internal/header/feature_list.go      | 2 +-
 internal/header/feature_predicate.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..05c3f65 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,7 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		if strings.HasPrefix(feature, "[") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..99edefa 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -57,7 +57,10 @@ func NewFeaturePredicateBag(predicateBag string) (FeaturePredicateBag, error) {
 	}
 	predicateBag = strings.TrimSpace(
 		strings.TrimPrefix(strings.TrimSuffix(predicateBag, "]"), "["))
-	predicates := strings.Split(predicateBag, " ")
+	predicates := strings.Fields(predicateBag)
+	if len(predicates) == 0 {
+		return nil, ErrInvalidPredicate
+	}
 
 	var fpb FeaturePredicateBag
 	for _, predicate := range predicates {
-- 
2.43.0


From dba21b7dcbd201251c0b3c329dd1002e0f3486bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 21/36] fix: retain the value of 'tag=value' feature
 expressions

Only values within braces were parsed, so an Accept-Features header of
'paper=a4' never satisfied the feature predicate 'paper=a4'.
---
 internal/header/feature_expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..f972d8d 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -160,6 +160,7 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 			), true
 			return
 		}
+		val, ok = FeatureTagValue(s[1]), true
 	}
 	return
 }
-- 
2.43.0


From dde305619254e653a859673d67a7bbb913495bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 22/36] fix: evaluate range predicates that are unbounded or
 lack a numeric value

RFC 2295 section 6.3: 'tag=[5-]' has no upper bound, and a feature without
numeric values isn't within any range. The missing bound and value were taken
to be 0.
---
 internal/header/feature_predicate.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 99edefa..333f5f4 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -270,21 +270,25 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
-	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
-
 	// ensure that the highest numeric value for the feature in the set falls
-	// within the range inclusively.
-	var highest int
+	// within the range inclusively. The range is unbounded in the directions
+	// for which there is no bound.
+	highest := -1
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
-			if num > highest {
-				highest = num
-			}
+		if num, err := strconv.Atoi(val.String()); err == nil && num > highest {
+			highest = num
 		}
 	}
-	return highest >= low && highest <= high
+	if highest == -1 {
+		return false
+	}
+	if low, err := strconv.Atoi(w.l.String()); err == nil && highest < low {
+		return false
+	}
+	if high, err := strconv.Atoi(w.h.String()); err == nil && highest > high {
+		return false
+	}
+	return true
 }
 
 // String provides the textual representation of the predicate.
-- 
2.43.0


From bb5e3e6e2ab354e5351fda8554f254e99be0786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 23/36] fix: fail the negotiation instead of panicking on
 invalid feature lists

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 48a8c94..9ad9673 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -184,22 +187,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, false, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From fa60337a286e2a8b3924f502b183b6c21b6f6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 24/36] fix: apply content encodings in order and completely

With several content encodings the last one was applied first, although
Content-Encoding lists them in the order they were applied, and only the last
writer was closed, which truncated the serialized form. An 'identity' encoding
that isn't first was rejected, and one that is first suppressed the others.
---
 representation/base.go | 47 ++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..d3ec7d0 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -168,7 +168,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 	}
 
 	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
+	if len(encodings) < 1 {
 		return b, nil
 	}
 
@@ -176,35 +176,35 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 	return r.encode(b)
 }
 
-func (r *Base) encode(b []byte) (bb []byte, err error) {
-	var (
-		buf                bytes.Buffer
-		writer             io.WriteCloser = &closeableBuffer{&buf}
-		encodings                         = r.ContentEncoding()
-		writerConstructors                = defaultEncodingWriters
-	)
+// encode applies the content encodings in the order they are listed.
+func (r *Base) encode(b []byte) ([]byte, error) {
+	writerConstructors := defaultEncodingWriters
 
 	if len(r.encodingWriters) > 0 {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
+	for _, e := range r.ContentEncoding() {
+		if strings.ToLower(e) == "identity" {
+			continue
+		}
 		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
-			err = ErrUnsupportedContentEncoding
-			return
+			return nil, ErrUnsupportedContentEncoding
 		}
-		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
-			return
+		var buf bytes.Buffer
+		writer, err := writerConstructors[strings.ToLower(e)](&closeableBuffer{&buf})
+		if err != nil {
+			return nil, err
 		}
+		if _, err = writer.Write(b); err != nil {
+			return nil, err
+		}
+		if err = writer.Close(); err != nil {
+			return nil, err
+		}
+		b = buf.Bytes()
 	}
-	if _, err = writer.Write(b); err != nil {
-		return
-	}
-	if err = writer.Close(); err != nil {
-		return
-	}
-	bb = buf.Bytes()
-	return
+	return b, nil
 }
 
 // FromBytes constructs the representation from its serialized form.
@@ -222,7 +222,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 
 	// decode.
 	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
+	if len(encodings) > 0 {
 		if b, err = r.decode(b); err != nil {
 			return
 		}
@@ -246,6 +246,9 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
 		e := encodings[idx]
+		if strings.ToLower(e) == "identity" {
+			continue
+		}
 		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
-- 
2.43.0


From b92fb09db934a8a8c28055c12accf0e30e7d587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 25/36] fix: report the errors encountered while decoding

Closing the reader replaced the read error, so corrupt or truncated content was
accepted, and each deferred call closed the last reader, which is nil (a panic)
after an encoding that could not be opened.
---
 representation/base.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index d3ec7d0..fe901ae 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -256,9 +256,11 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
-		defer func() {
-			err = reader.Close()
-		}()
+		defer func(c io.Closer) {
+			if closeErr := c.Close(); err == nil {
+				err = closeErr
+			}
+		}(reader)
 	}
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
-- 
2.43.0


From 3ba7d6e01845f82398f27ef47f93f20c718c0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 26/36] fix: respect the weights of the Accept header for 406
 responses

The list representations had a source quality of 0, so the score of all formats
was 0 and the smallest one was used whatever the Accept header preferred.
---
 proactive/proactive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 0852b05..37e0b21 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -67,6 +67,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
@@ -77,6 +78,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
@@ -87,6 +89,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
-- 
2.43.0


From f371880d9bc6cd809d7b7a086bd2bc960b1ea76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 27/36] fix: keep every value of a feature tag that
 Accept-Features mentions repeatedly

FeatureSet.Add shadowed its values, so that a tag already in the set got its
own values once more instead of the new ones.
---
 internal/header/feature_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..d0358e2 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,7 +32,7 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t := range s {
 		if t.Equals(tag) {
 			s[t] = append(s[t], values...)
 		}
-- 
2.43.0


From f4557f4dda3bc38e747e841e379360d4944e73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 28/36] fix: verify the integrity of every content coding when
 decoding

The decoders were chained, so that a coding applied earlier which did not need
to read its input to the very end left the checksum of the later one
unverified: truncated or corrupted data was accepted.
---
 representation/base.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index fe901ae..87a4ed2 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -256,16 +256,18 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
-		defer func(c io.Closer) {
-			if closeErr := c.Close(); err == nil {
-				err = closeErr
-			}
-		}(reader)
-	}
-	if bb, err = io.ReadAll(reader); err != nil {
-		return
+		// decode each coding completely, as a coding applied earlier may not
+		// need all of the data and would leave its integrity unverified.
+		bb, err = io.ReadAll(reader)
+		if closeErr := reader.Close(); err == nil {
+			err = closeErr
+		}
+		if err != nil {
+			return
+		}
+		reader = &closeableBuffer{bytes.NewBuffer(bb)}
 	}
-	return
+	return io.ReadAll(reader)
 }
 
 // closeableBuffer represents a closeable buffer.
-- 
2.43.0


From 6ac8dec94b56af1acfadaf20546065e7a346ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 29/36] fix: find the marshaller of media types with blanks
 before their parameters

---
 representation/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 87a4ed2..070ca2d 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -156,7 +156,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		marshallers = r.marshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := marshallers[strings.ToLower(ct)]; !ok {
 		return []byte{}, ErrUnsupportedContentType
 	}
@@ -214,7 +214,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 		unmarshallers = r.unmarshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {
 		err = ErrUnsupportedContentType
 		return
-- 
2.43.0


From 992c44eab6ee51546066a4bafe20515a42ca59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 30/36] fix: recognize IPv6 neighbors that lack a port

---
 transparent/transparent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 18d7eaa..bf3db3f 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -17,8 +17,8 @@ package transparent
 
 import (
 	"errors"
-	"fmt"
 	"math"
+	"net"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -193,7 +193,7 @@ func (n Negotiator) Negotiate(
 				if strings.EqualFold(u.Scheme, "https") {
 					port = 443
 				}
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
+				u.Host = net.JoinHostPort(u.Hostname(), strconv.Itoa(port))
 			}
 			return u
 		}
-- 
2.43.0


From 9f39ad92875b42aa2c40081e7bdf009420205e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 31/36] fix: do not take escaped slashes for the end of a
 neighborhood

---
 transparent/transparent.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index bf3db3f..2095e24 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -230,9 +230,18 @@ func (n Negotiator) Negotiate(
 	// https://tools.ietf.org/html/rfc2296#section-3.5
 	isNeighbor := func(neighborURL, resourceURL url.URL) bool {
 		trim := func(u url.URL) url.URL {
-			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
-				u.Path = u.Path[:lastSlash]
+			// escaped slashes do not separate the segments of the path.
+			segments := strings.Split(u.EscapedPath(), "/")
+			if len(segments) > 1 {
+				segments = segments[:len(segments)-1]
 			}
+			for i, s := range segments {
+				if unescaped, err := url.PathUnescape(s); err == nil {
+					segments[i] = url.PathEscape(unescaped)
+				}
+			}
+			u.RawPath = strings.Join(segments, "/")
+			u.Path, _ = url.PathUnescape(u.RawPath)
 			// the query and fragment come after the last slash.
 			u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""
 			return u
-- 
2.43.0


From fd373a4a230d40b9ac67919acee3aa53ef2a112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 32/36] fix: read the level of media types as a decimal number

---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 8cd051e..6120187 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -266,7 +266,7 @@ var (
 			}
 			isHTML := mt == "text/html"
 			if l, ok := p["level"]; ok && isHTML {
-				lNum, err := strconv.ParseInt(l, 0, 32)
+				lNum, err := strconv.ParseInt(l, 10, 32)
 				if err != nil {
 					return representation.EmptySet, err
 				}
-- 
2.43.0


From a0bee1be225fa718e2306e5ff7dd909b17c49d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 33/36] fix: tell extensions of the Accept header from media
 type parameters

---
 internal/header/accept.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index c073277..6973882 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -50,7 +50,7 @@ func NewAccept(accept []string) (Accept, error) {
 	// parse media ranges
 	var mediaRanges []MediaRange
 	for _, m := range listElements(accept) {
-		mediaRange, err := parseMediaRange(m)
+		mediaRange, err := parseMediaRange(trimExtensions(m))
 		if err != nil {
 			return EmptyAccept, err
 		}
@@ -59,6 +59,19 @@ func NewAccept(accept []string) (Accept, error) {
 	return Accept(mediaRanges), nil
 }
 
+// trimExtensions removes the parameters after the weight, which are extensions
+// of the Accept header and do not belong to the media range.
+func trimExtensions(m string) string {
+	params := splitUnquoted(m, ';')
+	for i, param := range params {
+		name, _, _ := strings.Cut(param, "=")
+		if strings.EqualFold(strings.TrimSpace(name), "q") {
+			return strings.Join(params[:i+1], ";")
+		}
+	}
+	return m
+}
+
 // MediaRanges provides the media ranges sorted on preference and precedence,
 // from highest preference and precedence to lowest.
 func (a Accept) MediaRanges() []MediaRange {
-- 
2.43.0


From de7ba94edf82fb981b2bdeaa8a0fcef0ffe66eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 34/36] fix: accept hyphens and the like in feature tags and
 their values

---
 internal/header/feature_predicate.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 333f5f4..0299bbd 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -23,13 +23,17 @@ import (
 	"strings"
 )
 
+// featureToken matches the tokens that feature tags and their values consist
+// of, such as "ua-media".
+const featureToken = `[\w.+-]+`
+
 // Regular expressions to match against the feature predicate grammar.
 var (
-	existsPredicate    = regexp.MustCompile(`^(\w+)$`)
-	absentPredicate    = regexp.MustCompile(`^(!(\w+))$`)
-	equalsPredicate    = regexp.MustCompile(`^(\w+)\s?=\s?(\w+)$`)
-	notEqualsPredicate = regexp.MustCompile(`^(\w+)\s?!=\s?(\w+)$`)
-	rangePredicate     = regexp.MustCompile(`^(\w+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
+	existsPredicate    = regexp.MustCompile(`^(` + featureToken + `)$`)
+	absentPredicate    = regexp.MustCompile(`^(!(` + featureToken + `))$`)
+	equalsPredicate    = regexp.MustCompile(`^(` + featureToken + `)\s?=\s?(` + featureToken + `)$`)
+	notEqualsPredicate = regexp.MustCompile(`^(` + featureToken + `)\s?!=\s?(` + featureToken + `)$`)
+	rangePredicate     = regexp.MustCompile(`^(` + featureToken + `)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
 )
 
 // Errors that can be encountered when interacting with feature predicates.
-- 
2.43.0


From a7985a5e3def1bd2528bccb9dc7f56acfed094c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 35/36] fix: disregard white space within feature expressions

---
 internal/header/feature_expression.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index f972d8d..3250213 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -125,13 +125,13 @@ func (e FeatureExpression) Type() FeatureExpressionType {
 // wildcard expressions do not have tags.
 func (e FeatureExpression) parseTag() FeatureTag {
 	if strings.HasPrefix(e.String(), "!") {
-		return FeatureTag(strings.TrimLeft(e.String(), "!"))
+		return FeatureTag(strings.TrimSpace(strings.TrimLeft(e.String(), "!")))
 	}
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
-		return FeatureTag(s[0])
+		return FeatureTag(strings.TrimSpace(s[0]))
 	}
 	return FeatureTag(e.String())
 }
@@ -145,22 +145,22 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 	}
 	// check for inequality ( != ).
 	if s := strings.Split(e.String(), "!="); len(s) > 1 {
-		val, ok = FeatureTagValue(s[1]), true
+		val, ok = FeatureTagValue(strings.TrimSpace(s[1])), true
 		return
 	}
 	// check for equality ( = ).
 	if s := strings.Split(e.String(), "="); len(s) > 1 {
+		v := strings.TrimSpace(s[1])
 		// check for exclusive equality ( {...} ).
-		if strings.HasPrefix(s[1], "{") &&
-			strings.HasSuffix(s[1], "}") {
-			val, ok = FeatureTagValue(
+		if strings.HasPrefix(v, "{") &&
+			strings.HasSuffix(v, "}") {
+			v = strings.TrimSpace(
 				strings.ReplaceAll(
-					strings.ReplaceAll(s[1], "}", ""), "{", "",
+					strings.ReplaceAll(v, "}", ""), "{", "",
 				),
-			), true
-			return
+			)
 		}
-		val, ok = FeatureTagValue(s[1]), true
+		val, ok = FeatureTagValue(v), true
 	}
 	return
 }
-- 
2.43.0


From f1d9b5a063b08ab83f92aca4ff6f7d962cd1253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 36/36] fix: compare numeric feature values of any size

---
 internal/header/feature_predicate.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 0299bbd..77584ff 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,8 +18,8 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math/big"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -277,24 +277,31 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively. The range is unbounded in the directions
 	// for which there is no bound.
-	highest := -1
+	var highest *big.Int
 	for _, val := range sValues {
-		if num, err := strconv.Atoi(val.String()); err == nil && num > highest {
+		if num, ok := number(val); ok && (highest == nil || num.Cmp(highest) > 0) {
 			highest = num
 		}
 	}
-	if highest == -1 {
+	if highest == nil {
 		return false
 	}
-	if low, err := strconv.Atoi(w.l.String()); err == nil && highest < low {
+	if low, ok := number(w.l); ok && highest.Cmp(low) < 0 {
 		return false
 	}
-	if high, err := strconv.Atoi(w.h.String()); err == nil && highest > high {
+	if high, ok := number(w.h); ok && highest.Cmp(high) > 0 {
 		return false
 	}
 	return true
 }
 
+// number retrieves the numeric value of the provided feature tag value, which
+// can have any size. Numeric values are not negative.
+func number(v FeatureTagValue) (n *big.Int, ok bool) {
+	n, ok = new(big.Int).SetString(v.String(), 10)
+	return n, ok && n.Sign() >= 0
+}
+
 // String provides the textual representation of the predicate.
 func (w within) String() string {
 	return fmt.Sprintf("%s=[%s-%s]", w.t.String(), w.l.String(), w.h.String())
-- 
2.43.0

