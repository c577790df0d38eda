From 6acbe47c8781ac4b26fe89b6a3781fa55015ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 01/35] fix: keep the read position of a body between reads

---
 modsecurity/buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..c710310 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -84,7 +84,10 @@ func (b *buffer) Len() int64 {
 func (b *buffer) initRead() {
 	if !b.readed {
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
-		b.fileBuf.Seek(0, 0)
+		if b.fileBuf != nil {
+			b.fileBuf.Seek(0, 0)
+		}
+		b.readed = true
 	}
 	return
 }
-- 
2.43.0


From 2cabd98521a4043c3ae119afca6e7e8d7424eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 02/35] fix: spill a body to disk without duplicating or losing
 bytes

---
 modsecurity/buffer.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index c710310..df65f58 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,16 +44,7 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
-		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
-		if err != nil {
-			return 0, err
-		}
-		_, err = b.fileBuf.Write(b.memBuf.Bytes())
-		if err != nil {
-			return 0, err
-		}
-		wn, err = b.fileBuf.Write(p)
+		wn, err = b.spill(p)
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
@@ -62,6 +53,30 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	b.length += int64(wn)
 	return wn, err
 }
+
+// spill moves the body to a temporary file and appends p to it. On failure
+// nothing changes. The memory part keeps the first memLimit bytes.
+func (b *buffer) spill(p []byte) (int, error) {
+	file, err := ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
+	if err != nil {
+		return 0, err
+	}
+	_, err = file.Write(b.memBuf.Bytes())
+	if err == nil {
+		_, err = file.Write(p)
+	}
+	if err != nil {
+		file.Close()
+		os.Remove(file.Name())
+		return 0, err
+	}
+	if rest := b.memLimit - b.length; rest > 0 {
+		b.memBuf.Write(p[:rest])
+	}
+	b.fileBuf = file
+	return len(p), nil
+}
+
 func (b *buffer) String() (string, error) {
 	var err error
 	b.initRead()
-- 
2.43.0


From 85f601d792c6c91f16c6b67256056afcdbae1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 03/35] fix: closing a body held in memory does not panic

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index df65f58..c431743 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -129,6 +129,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From bd160068e179af0a4c70c724fc719b48b37558e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 04/35] fix: a malformed multipart body no longer panics when
 inspected twice

---
 modsecurity/variables/request_body_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..0d579e7 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -43,7 +43,10 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return form, err
+			if err != nil {
+				return nil, err
+			}
+			return form, nil
 		},
 	},
 }
-- 
2.43.0


From 3e738f2c8a9fa9e2d0e1be1aadcd848ed9650455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 05/35] fix: remove the temporary files of multipart uploads

---
 modsecurity/variables/request_body_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 0d579e7..fa6edcd 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -46,6 +46,7 @@ var parsers = map[int]*bodyParser{
 			if err != nil {
 				return nil, err
 			}
+			form.RemoveAll() // only the values are inspected
 			return form, nil
 		},
 	},
-- 
2.43.0


From c00bd0702b376e716f87340a28cfccf00c5c283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 06/35] fix: inspecting a multipart body does not depend on or
 move its read position

---
 modsecurity/variables/request_body_parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index fa6edcd..5a77e93 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"fmt"
+	"io"
 	"mime"
 	"mime/multipart"
 	"net/http"
@@ -37,6 +38,15 @@ var parsers = map[int]*bodyParser{
 	bodyTypeMultipart: &bodyParser{
 		contentType: "multipart/",
 		parser: func(t *modsecurity.Transaction, params map[string]string) (interface{}, error) {
+			// read the whole body, wherever it was read up to
+			pos, err := t.Request.Body.Seek(0, io.SeekCurrent)
+			if err != nil {
+				return nil, err
+			}
+			if _, err = t.Request.Body.Seek(0, io.SeekStart); err != nil {
+				return nil, err
+			}
+			defer t.Request.Body.Seek(pos, io.SeekStart)
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
-- 
2.43.0


From ceafb6f3771cd291a97553536b143d7aacb6f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 07/35] fix: a malformed urlencoded body is inspected the same
 every time

---
 modsecurity/variables/request_body_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 5a77e93..006c0aa 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -90,7 +90,6 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			t.VariableCache[cacheKey] = res
 			if err != nil {
 				t.RequestBodyError = err
-				break
 			}
 		}
 		if res != nil {
-- 
2.43.0


From fb3d869b76b2435de7e817e8fed2a9fd2010e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 08/35] fix: malformed pairs and semicolons do not hide
 arguments

---
 modsecurity/variables/args_get_names.go      |  3 +-
 modsecurity/variables/args_gets.go           |  3 +-
 modsecurity/variables/query.go               | 35 ++++++++++++++++++++
 modsecurity/variables/request_body_parser.go |  3 +-
 4 files changed, 40 insertions(+), 4 deletions(-)
 create mode 100644 modsecurity/variables/query.go

diff --git a/modsecurity/variables/args_get_names.go b/modsecurity/variables/args_get_names.go
index b058028..4204002 100644
--- a/modsecurity/variables/args_get_names.go
+++ b/modsecurity/variables/args_get_names.go
@@ -19,5 +19,6 @@ func (v *VariableArgsGetNames) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Names(t.URL.Query())
+	args, _ := parseQuery(t.URL.RawQuery)
+	return v.filter.Names(args)
 }
diff --git a/modsecurity/variables/args_gets.go b/modsecurity/variables/args_gets.go
index 1db9eb5..89d256c 100644
--- a/modsecurity/variables/args_gets.go
+++ b/modsecurity/variables/args_gets.go
@@ -19,5 +19,6 @@ func (v *VariableArgsGet) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Fetch(t.URL.Query())
+	args, _ := parseQuery(t.URL.RawQuery)
+	return v.filter.Fetch(args)
 }
diff --git a/modsecurity/variables/query.go b/modsecurity/variables/query.go
new file mode 100644
index 0000000..2a982ef
--- /dev/null
+++ b/modsecurity/variables/query.go
@@ -0,0 +1,35 @@
+package variables
+
+import (
+	"errors"
+	"net/url"
+	"strings"
+
+	"github.com/senghoo/modsecurity-go/utils"
+)
+
+var errMalformedQuery = errors.New("malformed escape in query")
+
+// parseQuery splits a query string or urlencoded body into its name=value
+// pairs. Unlike url.ParseQuery it never drops a pair: malformed escapes are
+// kept literally (and reported), and ';' is an ordinary character.
+func parseQuery(query string) (url.Values, error) {
+	var err error
+	res := make(url.Values)
+	for _, pair := range strings.Split(query, "&") {
+		if pair == "" {
+			continue
+		}
+		name, value := pair, ""
+		if i := strings.Index(pair, "="); i >= 0 {
+			name, value = pair[:i], pair[i+1:]
+		}
+		name, nameErrs := utils.UrlDecode(name)
+		value, valueErrs := utils.UrlDecode(value)
+		if nameErrs+valueErrs > 0 {
+			err = errMalformedQuery
+		}
+		res[name] = append(res[name], value)
+	}
+	return res, err
+}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 006c0aa..08908e2 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -6,7 +6,6 @@ import (
 	"mime"
 	"mime/multipart"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -32,7 +31,7 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return url.ParseQuery(body)
+			return parseQuery(body)
 		},
 	},
 	bodyTypeMultipart: &bodyParser{
-- 
2.43.0


From 6b23eaa40af81a9f16ba571c2710786ea0ee7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 09/35] fix: malformed content type parameters do not stop body
 inspection

---
 modsecurity/variables/request_body.go          |  3 +--
 modsecurity/variables/request_body_parser.go   | 12 +++++++++++-
 modsecurity/variables/response_content_type.go |  4 +---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 3813e1a..1054e6b 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -1,7 +1,6 @@
 package variables
 
 import (
-	"mime"
 	"net/http"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -31,7 +30,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		return nil
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = mediaType(ct)
 	if ct != "application/x-www-form-urlencoded" {
 		return nil
 	}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 08908e2..d7cf40d 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -73,7 +73,7 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, params, _ := mime.ParseMediaType(ct)
+	ct, params := mediaType(ct)
 	for _, tp := range types {
 		parser, has := parsers[tp]
 		if !has {
@@ -98,3 +98,13 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 
 	return bodyTypeNone, nil
 }
+
+// mediaType parses a content type. The media type itself is known even when
+// the parameters after it are malformed.
+func mediaType(ct string) (string, map[string]string) {
+	tp, params, err := mime.ParseMediaType(ct)
+	if err != nil {
+		tp = strings.ToLower(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0]))
+	}
+	return tp, params
+}
diff --git a/modsecurity/variables/response_content_type.go b/modsecurity/variables/response_content_type.go
index 8ad8acb..50b1b5a 100644
--- a/modsecurity/variables/response_content_type.go
+++ b/modsecurity/variables/response_content_type.go
@@ -1,8 +1,6 @@
 package variables
 
 import (
-	"mime"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -23,6 +21,6 @@ func (*VariableResponseContentType) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = mediaType(ct)
 	return []string{ct}
 }
-- 
2.43.0


From 8001cc40e91d09eb1c87d7f3a79e6fd3c488ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 10/35] fix: REQUEST_BODY records the body error when it aborts

---
 modsecurity/variables/request_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 1054e6b..2a25a30 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -36,6 +36,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	}
 	body, err := t.Request.Body.String()
 	if err != nil {
+		t.RequestBodyError = err
 		t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 		return nil
 	}
-- 
2.43.0


From 3e21bbd7628b205c3ca5432fd4d2d98c1bd2efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 11/35] fix: REQUEST_HEADERS_NAMES does not depend on the URL

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..3f37add 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From dbac1a6fbc89e6e0b2568ccff1ae27e727e235c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 12/35] fix: selecting by name and by expression unites

---
 modsecurity/variables/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..e96ffe2 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,8 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From 14b6c18bd71f47e8cf319c0def3fc518896d2950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 13/35] fix: a bare variable selects all its entries whatever
 else is listed

---
 seclang/variable.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/seclang/variable.go b/seclang/variable.go
index 5408859..11e89ab 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -53,6 +53,17 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 	)
 	varMap := make(map[int]modsecurity.Variable)
 	countVarMap := make(map[int]modsecurity.Variable)
+	// variables selected as a whole, which further selections do not narrow
+	type selection struct {
+		tk    int
+		count bool
+	}
+	whole := make(map[selection]bool)
+	for _, v := range vs {
+		if v.Index == "" && !v.Exclusion {
+			whole[selection{v.Tk, v.Count}] = true
+		}
+	}
 	for _, v := range vs {
 		factory, has = variableFactorys[v.Tk]
 		if !has {
@@ -75,6 +86,12 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 		}
 		if v.Index != "" {
 			if !v.Exclusion {
+				if whole[selection{v.Tk, v.Count}] {
+					// already selected, just check the index
+					if variable, err = factory(v); err != nil {
+						return err
+					}
+				}
 				err := variable.Include(v.Index)
 				if err != nil {
 					return err
-- 
2.43.0


From 4345e358dc47c557ff4988577525ce5cfc424d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 14/35] fix: header selectors ignore the case of header names

---
 modsecurity/variables/filter.go               | 29 ++++++++++++++++---
 modsecurity/variables/request_headers.go      |  2 +-
 .../variables/request_headers_names.go        |  2 +-
 modsecurity/variables/response_headers.go     |  2 +-
 .../variables/response_headers_names.go       |  2 +-
 5 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index e96ffe2..5bafd0a 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/senghoo/modsecurity-go/utils"
 )
@@ -11,6 +12,26 @@ type filter struct {
 	includeRegex []*regexp.Regexp
 	exclude      []string
 	excludeRegex []*regexp.Regexp
+	ignoreCase   bool // names are compared without regard to case
+}
+
+func (f *filter) compile(str string) (*regexp.Regexp, error) {
+	if f.ignoreCase && isRegex(str) {
+		str = "/(?i)" + str[1:]
+	}
+	return compileRegex(str)
+}
+
+func (f *filter) named(name string, names []string) bool {
+	if !f.ignoreCase {
+		return utils.StringInSlice(name, names)
+	}
+	for _, n := range names {
+		if strings.EqualFold(n, name) {
+			return true
+		}
+	}
+	return false
 }
 
 func isRegex(str string) bool {
@@ -31,7 +52,7 @@ func compileRegex(str string) (*regexp.Regexp, error) {
 }
 
 func (f *filter) Include(s string) error {
-	re, err := compileRegex(s)
+	re, err := f.compile(s)
 	if err != nil {
 		return err
 	}
@@ -43,7 +64,7 @@ func (f *filter) Include(s string) error {
 	return nil
 }
 func (f *filter) Exclude(s string) error {
-	re, err := compileRegex(s)
+	re, err := f.compile(s)
 	if err != nil {
 		return err
 	}
@@ -77,10 +98,10 @@ func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
 		if (f.include != nil || f.includeRegex != nil) &&
-			!utils.StringInSlice(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
+			!f.named(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
-		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
+		if (f.exclude != nil && f.named(k, f.exclude)) ||
 			(f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex)) {
 			continue
 		}
diff --git a/modsecurity/variables/request_headers.go b/modsecurity/variables/request_headers.go
index 8056509..9b26c9c 100644
--- a/modsecurity/variables/request_headers.go
+++ b/modsecurity/variables/request_headers.go
@@ -4,7 +4,7 @@ import "github.com/senghoo/modsecurity-go/modsecurity"
 
 func NewVariableRequestHeaders() modsecurity.Variable {
 	return &VariableRequestHeaders{
-		filter: &filter{},
+		filter: &filter{ignoreCase: true},
 	}
 }
 
diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index 3f37add..c637462 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -4,7 +4,7 @@ import "github.com/senghoo/modsecurity-go/modsecurity"
 
 func NewVariableRequestHeadersNames() modsecurity.Variable {
 	return &VariableRequestHeadersNames{
-		filter: &filter{},
+		filter: &filter{ignoreCase: true},
 	}
 }
 
diff --git a/modsecurity/variables/response_headers.go b/modsecurity/variables/response_headers.go
index c8da14f..2d44612 100644
--- a/modsecurity/variables/response_headers.go
+++ b/modsecurity/variables/response_headers.go
@@ -6,7 +6,7 @@ import (
 
 func NewVariableResponseHeaders() modsecurity.Variable {
 	return &VariableResponseHeaders{
-		filter: &filter{},
+		filter: &filter{ignoreCase: true},
 	}
 }
 
diff --git a/modsecurity/variables/response_headers_names.go b/modsecurity/variables/response_headers_names.go
index dece743..71a75f9 100644
--- a/modsecurity/variables/response_headers_names.go
+++ b/modsecurity/variables/response_headers_names.go
@@ -4,7 +4,7 @@ import "github.com/senghoo/modsecurity-go/modsecurity"
 
 func NewVariableResponseHeadersNames() modsecurity.Variable {
 	return &VariableResponseHeadersNames{
-		filter: &filter{},
+		filter: &filter{ignoreCase: true},
 	}
 }
 
-- 
2.43.0


From 8eb1314168ce55ff427e8a78c74a8aca07929dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 15/35] fix: allow suppresses the announced scope and no more

---
 modsecurity/actions/allow.go | 13 ++++++++++---
 modsecurity/transaction.go   | 12 +++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index 7374b42..bacf885 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -25,12 +25,19 @@ func (a *ActionAllow) Value() string {
 
 }
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
+	var phase int // next phase to be processed
 	switch a.arg {
 	case "":
-		t.JumpToPhase(modsecurity.PhaseLogging)
+		phase = modsecurity.PhaseLogging
 	case "phase":
-		t.NextPhase()
+		phase = t.CurrentPhase() + 1
 	case "request":
-		t.JumpToPhase(modsecurity.PhaseResponseHeaders)
+		phase = modsecurity.PhaseResponseHeaders
+	default:
+		return
 	}
+	if phase <= t.CurrentPhase() { // never go back
+		phase = t.CurrentPhase() + 1
+	}
+	t.JumpToPhase(phase)
 }
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..0521b74 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -22,10 +22,11 @@ type Transaction struct {
 	VariableCache map[string]interface{}
 	intervention  *Intervention
 	// status
-	currentPhase int
-	currentRule  int
-	nextRule     int
-	Data         map[string]interface{}
+	currentPhase   int
+	processedPhase int // last phase that was processed
+	currentRule    int
+	nextRule       int
+	Data           map[string]interface{}
 }
 
 const StatusNotStarted = -1
@@ -153,10 +154,11 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	if t.currentPhase > phase || t.processedPhase >= phase {
 		return
 	}
 	t.JumpToPhase(phase)
+	t.processedPhase = phase
 	t.processPhase(phase)
 }
 
-- 
2.43.0


From 275fd12358c7c91cc6e9184e837337dc3a0e9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 16/35] fix: no rule runs while an interception is pending

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 0521b74..7178998 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -163,7 +163,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
 	next := t.Next()
-- 
2.43.0


From a8511fce60bbdee3d633bb035e28a842f0b5e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 17/35] fix: honour SecRuleEngine Off and DetectionOnly

---
 modsecurity/engine.go      | 1 +
 modsecurity/sec_rule.go    | 5 ++++-
 modsecurity/transaction.go | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..24b0459 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -35,6 +35,7 @@ func NewDefaultLimits() *Limits {
 
 func NewEngine() *Engine {
 	return &Engine{
+		Enabled: true,
 		RuleSet: NewSecRuleSet(),
 		Limits:  NewDefaultLimits(),
 		Config:  NewDefaultConfig(),
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..743a0f2 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -106,7 +106,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
+			continue
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 7178998..3181e85 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -166,6 +166,9 @@ func (t *Transaction) processPhase(phase int) {
 	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
+	if !t.Engine.Enabled && !t.Engine.DetectionOnly {
+		return
+	}
 	next := t.Next()
 	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
 		t.RuleSet.Process(t, phase, next)
@@ -258,6 +261,9 @@ func (t *Transaction) AbortWithStatus(code int) {
 
 func (t *Transaction) Result() *Intervention {
 	i := t.Intervention().Copy()
+	if !t.Engine.Enabled {
+		i.Disruptive = false
+	}
 	if !t.Abort {
 		t.Intervention().Reset()
 	}
-- 
2.43.0


From 19c1887fc938634c4269876e88d961d9c853282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 18/35] fix: deliver the log of an aborted transaction once

---
 modsecurity/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 3181e85..1a7c3e8 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -264,7 +264,9 @@ func (t *Transaction) Result() *Intervention {
 	if !t.Engine.Enabled {
 		i.Disruptive = false
 	}
-	if !t.Abort {
+	if t.Abort { // stays intercepted, but delivers its log once
+		t.Intervention().Log = nil
+	} else {
 		t.Intervention().Reset()
 	}
 	return i
-- 
2.43.0


From 2998311022939ab71b33f08bc5daccc29d860ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 19/35] fix: log the status a request was denied with

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From ad6564325fd71b299b445379160b31b5b4481da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 20/35] fix: pass does not erase log entries

---
 modsecurity/actions/pass.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modsecurity/actions/pass.go b/modsecurity/actions/pass.go
index 06b85b4..ff739a2 100644
--- a/modsecurity/actions/pass.go
+++ b/modsecurity/actions/pass.go
@@ -21,5 +21,7 @@ func (*ActionPass) Value() string {
 
 }
 func (*ActionPass) Do(t *modsecurity.Transaction) {
+	log := t.Intervention().Log
 	t.ResetIntervention()
+	t.Intervention().Log = log
 }
-- 
2.43.0


From 37c3741fe63ab7824d8a68dc6000647b0814a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 21/35] fix: a backslash that continues no line does not hang
 the scanner

---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..d373c07 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From fb1642e6ec1d43f028c915153c96176a3db7f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 22/35] fix: report errors of the reader rules are read from

---
 seclang/parser/scanner.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index d373c07..fabe752 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -33,6 +33,7 @@ type Directive interface {
 type Scanner struct {
 	buffer               *bytes.Buffer
 	r                    *bufio.Reader
+	err                  error // read error, other than the end of the text
 	current              rune
 	LineNumber, LastLine int
 }
@@ -132,9 +133,15 @@ func (s *Scanner) ReadDirective() (Directive, error) {
 		case 0:
 			s.advance()
 		case EOS:
+			if s.err != nil {
+				return nil, s.err
+			}
 			return nil, ErrEOS
 		default:
 			dir, err := s.readDirective()
+			if s.err != nil { // what was read may be incomplete
+				return nil, s.err
+			}
 			if err == ErrEOS {
 				return nil, errors.New("unexpected EOS")
 			}
@@ -407,14 +414,22 @@ func (s *Scanner) incrementLineNumber() {
 
 func (s *Scanner) advance() {
 	if c, err := s.r.ReadByte(); err != nil {
+		s.readError(err)
 		s.current = EOS
 	} else {
 		s.current = rune(c)
 	}
 }
 
+func (s *Scanner) readError(err error) {
+	if err != io.EOF && s.err == nil {
+		s.err = err
+	}
+}
+
 func (s *Scanner) next() rune {
 	if c, err := s.r.ReadByte(); err != nil {
+		s.readError(err)
 		return EOS
 	} else {
 		s.r.UnreadByte()
-- 
2.43.0


From c97313d52557957fca80e95607dca3f1f416ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 23/35] fix: an invalid directive leaves the configuration
 unchanged

---
 seclang/rule_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..c72de80 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -44,6 +44,7 @@ type DireSet struct {
 
 func (rs *DireSet) AddSecLangString(str string) error {
 	var chainParent *DireRule
+	var dires []Dire
 	scanner := parser.NewSecLangScannerFromString(str)
 	dirs, err := scanner.AllDirective()
 	if err != nil {
@@ -67,8 +68,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 				continue // skip append dire
 			}
 		}
-		rs.dires = append(rs.dires, dire)
+		dires = append(dires, dire)
 	}
+	rs.dires = append(rs.dires, dires...)
 	return nil
 }
 
-- 
2.43.0


From 791462a1b30e3f3eb8bdcb75f018f76014040640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 24/35] fix: refuse a chain without its last rule

---
 seclang/rule_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index c72de80..053f407 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -70,6 +70,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 		}
 		dires = append(dires, dire)
 	}
+	if chainParent != nil {
+		return fmt.Errorf("chain of rule %d has no last rule", chainParent.rule.Id)
+	}
 	rs.dires = append(rs.dires, dires...)
 	return nil
 }
-- 
2.43.0


From 6096ff6eca92aed7eac3b3ab0b627462665c9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 25/35] fix: commas inside quoted action arguments

---
 seclang/parser/scanner.go | 48 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index fabe752..88c69b7 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -329,7 +329,10 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	if len(str) == 0 {
 		return nil, errors.New("expected actions bug got empty")
 	}
-	actions := strings.Split(str, ",")
+	actions, err := splitActions(str)
+	if err != nil {
+		return nil, err
+	}
 	for _, action := range actions {
 		err := processAction(res, action)
 		if err != nil {
@@ -339,6 +342,49 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	return res, nil
 }
 
+// splitActions splits an action list at its commas, except those inside a
+// quoted argument.
+func splitActions(str string) ([]string, error) {
+	var actions []string
+	for {
+		end := strings.IndexByte(str, ',')
+		arg := strings.IndexByte(str, ':') + 1
+		for arg > 0 && arg < len(str) && isBlank(rune(str[arg])) {
+			arg++
+		}
+		if arg > 0 && arg < len(str) && isQuote(rune(str[arg])) && (end < 0 || arg < end) {
+			end = quotedEnd(str, arg)
+			if end < 0 {
+				return nil, fmt.Errorf("unfinished quote in action %s", str)
+			}
+			if end == len(str) {
+				end = -1
+			}
+		}
+		if end < 0 {
+			return append(actions, str), nil
+		}
+		actions = append(actions, str[:end])
+		str = str[end+1:]
+	}
+}
+
+// quotedEnd returns where the argument quoted from position i ends: at the
+// first comma (or the end of the string) that follows a closing quote.
+func quotedEnd(str string, i int) int {
+	quote := str[i]
+	for i++; i < len(str); i++ {
+		if str[i] != quote {
+			continue
+		}
+		end := len(str) - len(strings.TrimLeft(str[i+1:], " \f\t\v\r\n"))
+		if end == len(str) || str[end] == ',' {
+			return end
+		}
+	}
+	return -1
+}
+
 func parseAction(act string) (int, string, error) {
 	var arg string
 	s := strings.SplitN(act, ":", 2)
-- 
2.43.0


From 84fe9d782dfb2748619b3c629d42acc525f0d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 26/35] fix: ignore blanks around action arguments

---
 seclang/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 88c69b7..b56cd41 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -394,7 +394,7 @@ func parseAction(act string) (int, string, error) {
 		return 0, "", fmt.Errorf("unknown action %s", s[0])
 	}
 	if len(s) > 1 {
-		arg = s[1]
+		arg = strings.TrimSpace(s[1])
 	}
 	return tk, arg, nil
 }
-- 
2.43.0


From fd19919644197ecf74478817a3544320e7d73319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 27/35] fix: rules without a phase run in phase 2

---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..685c7c1 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -92,6 +92,9 @@ type actionProcessor struct {
 func (dr *DireRule) applyActions(actions *parser.Actions) error {
 	dr.rule.Id = actions.Id
 	dr.rule.Phase = actions.Phase
+	if dr.rule.Phase == 0 { // no phase given
+		dr.rule.Phase = parser.PhaseRequestBody
+	}
 	dr.chain = actions.Chain
 	for _, action := range actions.Action {
 		processor, has := actionFactorys[action.Tk]
-- 
2.43.0


From 630c43d6d769676c2b79393fc69ac060103648fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 28/35] fix: load the pass, severity and logdata actions

---
 seclang/actions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 685c7c1..e9377d8 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -28,6 +28,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionAllow: &actionProcessor{
 		factory: actionArgWrapper(actions.NewActionAllow),
 	},
+	parser.TkActionPass: &actionProcessor{
+		factory: actionWrapper(actions.NewActionPass),
+	},
 	parser.TkActionTag: &actionProcessor{
 		meta: metaFactory("tag"),
 	},
@@ -40,6 +43,12 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionVer: &actionProcessor{
 		meta: metaFactory("ver"),
 	},
+	parser.TkActionSeverity: &actionProcessor{
+		meta: metaFactory("severity"),
+	},
+	parser.TkActionLogData: &actionProcessor{
+		meta: metaFactory("logdata"),
+	},
 }
 
 func isQuote(c rune) bool { return '\'' == c || '"' == c }
-- 
2.43.0


From 452f0e0932e08718c76563e1a5337930f7481c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 29/35] fix: skip:n skips n rules

---
 modsecurity/actions/skip.go | 29 +++++++++++++++++++++++++++--
 seclang/actions.go          |  8 +++++++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index d08e718..51a203a 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -1,14 +1,35 @@
 package actions
 
 import (
+	"fmt"
+	"strconv"
+
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 type ActionSkip struct {
+	arg   string
+	count int // number of rules to skip
 }
 
 func NewActionSkip() modsecurity.Action {
-	return &ActionSkip{}
+	return &ActionSkip{count: 1}
+}
+
+// NewActionSkipCount makes a skip action for the number of rules in arg, or
+// one when arg is empty.
+func NewActionSkipCount(arg string) (modsecurity.Action, error) {
+	if arg == "" {
+		return NewActionSkip(), nil
+	}
+	count, err := strconv.Atoi(arg)
+	if err != nil {
+		return nil, err
+	}
+	if count < 1 {
+		return nil, fmt.Errorf("cannot skip %d rules", count)
+	}
+	return &ActionSkip{arg: arg, count: count}, nil
 }
 func (*ActionSkip) ActionGroup() int {
 	return modsecurity.ActionGroupFlow
@@ -22,5 +43,9 @@ func (a *ActionSkip) Value() string {
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2)
+	next := len(t.CurrentPhaseRules())
+	if a.count < next-t.CurrentRule() {
+		next = t.CurrentRule() + 1 + a.count
+	}
+	t.JumpTo(next)
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index e9377d8..2ebac75 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -14,7 +14,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionWrapper(actions.NewActionDeny),
 	},
 	parser.TkActionSkip: &actionProcessor{
-		factory: actionWrapper(actions.NewActionSkip),
+		factory: actionArgErrWrapper(actions.NewActionSkipCount),
 	},
 	parser.TkActionLog: &actionProcessor{
 		factory: actionWrapper(actions.NewActionLog),
@@ -77,6 +77,12 @@ func actionArgWrapper(f func(string) modsecurity.Action) func(v *parser.Action)
 		return f(trimQuote(v.Argument)), nil
 	}
 }
+func actionArgErrWrapper(f func(string) (modsecurity.Action, error)) func(v *parser.Action) (modsecurity.Action, error) {
+	return func(v *parser.Action) (modsecurity.Action, error) {
+		return f(trimQuote(v.Argument))
+	}
+}
+
 func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
 		arg, err := toNum(v.Argument)
-- 
2.43.0


From f46992355a8fb32e47d1ee95a67960782f385021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 30/35] fix: transformations keep invalid UTF-8 and know all
 white space

---
 modsecurity/transforms/bytes.go               | 31 +++++++++++++++++++
 modsecurity/transforms/compress_whitespace.go | 10 +++---
 modsecurity/transforms/lowercase.go           |  4 +--
 modsecurity/transforms/map_rune.go            | 13 +++++---
 4 files changed, 45 insertions(+), 13 deletions(-)
 create mode 100644 modsecurity/transforms/bytes.go

diff --git a/modsecurity/transforms/bytes.go b/modsecurity/transforms/bytes.go
new file mode 100644
index 0000000..c8da163
--- /dev/null
+++ b/modsecurity/transforms/bytes.go
@@ -0,0 +1,31 @@
+package transforms
+
+import (
+	"strings"
+	"unicode/utf8"
+)
+
+// mapRunes is strings.Map, except that bytes which are not valid UTF-8 are kept.
+func mapRunes(mapping func(rune) rune, s string) string {
+	var res strings.Builder
+	for len(s) > 0 {
+		r, n := utf8.DecodeRuneInString(s)
+		invalid := r == utf8.RuneError && n == 1
+		r = mapping(r)
+		if invalid {
+			res.WriteByte(s[0])
+		} else if r >= 0 {
+			res.WriteRune(r)
+		}
+		s = s[n:]
+	}
+	return res.String()
+}
+
+func isSpace(r rune) bool {
+	switch r {
+	case ' ', '\t', '\n', '\v', '\f', '\r':
+		return true
+	}
+	return false
+}
diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..593ed33 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -18,15 +16,15 @@ func (t *TransCompressWhitespace) Name() string {
 }
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
-	return strings.Map(func(i rune) rune {
-		if i == ' ' {
+	return mapRunes(func(i rune) rune {
+		if isSpace(i) {
 			if previousIsSpace {
 				return -1
 			}
 			previousIsSpace = true
-		} else {
-			previousIsSpace = false
+			return ' '
 		}
+		previousIsSpace = false
 		return i
 	}, s)
 }
diff --git a/modsecurity/transforms/lowercase.go b/modsecurity/transforms/lowercase.go
index 7022a4e..f1cb4f8 100644
--- a/modsecurity/transforms/lowercase.go
+++ b/modsecurity/transforms/lowercase.go
@@ -1,7 +1,7 @@
 package transforms
 
 import (
-	"strings"
+	"unicode"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -16,5 +16,5 @@ func (*TransLowerCase) Name() string {
 	return "lowercase"
 }
 func (*TransLowerCase) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.ToLower(s)
+	return mapRunes(unicode.ToLower, s)
 }
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..6329543 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -13,8 +11,13 @@ type TransMapRune struct {
 
 func NewTransRemoveWhitespace() modsecurity.Trans {
 	return &TransMapRune{
-		name:    "removeWhitespace",
-		mapping: replaceRune(' ', -1),
+		name: "removeWhitespace",
+		mapping: func(i rune) rune {
+			if isSpace(i) {
+				return -1
+			}
+			return i
+		},
 	}
 }
 
@@ -45,5 +48,5 @@ func (t *TransMapRune) Name() string {
 	return t.name
 }
 func (t *TransMapRune) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.Map(t.mapping, s)
+	return mapRunes(t.mapping, s)
 }
-- 
2.43.0


From 5750d0aff472c3501a714c7163897dd3911e48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 31/35] fix: compare integers beyond 64 bits by their magnitude

---
 modsecurity/operators/compare.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index e9873db..5bba9ef 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -64,6 +64,13 @@ func (o *OperatorCompare) Args() string {
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
 	v, err := strconv.ParseInt(s, 10, 64)
+	if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange && strings.Trim(s[1:], "0123456789") == "" {
+		// beyond every argument, on the side of its sign
+		if v > 0 {
+			return o.fn(1, 0)
+		}
+		return o.fn(-1, 0)
+	}
 	if err != nil {
 		v = 0
 	}
-- 
2.43.0


From decec005228a08319466e2f6d1dd0491c2552198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 32/35] fix: fold only full-width ASCII in urlDecodeUni

---
 utils/urlencode.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utils/urlencode.go b/utils/urlencode.go
index 386e280..5fde93e 100644
--- a/utils/urlencode.go
+++ b/utils/urlencode.go
@@ -28,12 +28,9 @@ func urldecode(s string, uni bool) (string, int) {
 			c1 := rune(UnHex(s[i+3]))
 			c2 := rune(UnHex(s[i+4]))
 			c3 := rune(UnHex(s[i+5]))
-			v = c0<<4 | c1
-			if v == 0xff {
-				v = (c2<<4 | c3) + 0x20 // full width ascii offset
-			} else {
-				v = v<<4 | c2
-				v = v<<4 | c3
+			v = c0<<12 | c1<<8 | c2<<4 | c3
+			if v >= 0xff01 && v <= 0xff5e {
+				v = v&0xff + 0x20 // full width ascii offset
 			}
 			n := utf8.EncodeRune(runeTmp[:], v)
 			res.Write(runeTmp[:n])
-- 
2.43.0


From e6bea8a109a099219d328571d0f047db2177e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 33/35] fix: refuse multipart bodies that end within a part's
 header

---
 modsecurity/variables/request_body_parser.go | 26 +++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index d7cf40d..38acd7a 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -1,6 +1,7 @@
 package variables
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"mime"
@@ -46,7 +47,8 @@ var parsers = map[int]*bodyParser{
 				return nil, err
 			}
 			defer t.Request.Body.Seek(pos, io.SeekStart)
-			mr := multipart.NewReader(t.Request.Body, params["boundary"])
+			end := &finder{want: []byte("\n--" + params["boundary"] + "--"), tail: []byte("\n")}
+			mr := multipart.NewReader(io.TeeReader(t.Request.Body, end), params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
@@ -56,11 +58,33 @@ var parsers = map[int]*bodyParser{
 				return nil, err
 			}
 			form.RemoveAll() // only the values are inspected
+			if !end.found {  // ReadForm takes an end within a part's header for the end of the form
+				return nil, io.ErrUnexpectedEOF
+			}
 			return form, nil
 		},
 	},
 }
 
+// finder looks for a byte sequence in what is written to it.
+type finder struct {
+	want, tail []byte
+	found      bool
+}
+
+func (f *finder) Write(p []byte) (int, error) {
+	if f.found {
+		return len(p), nil
+	}
+	buf := append(f.tail, p...)
+	f.found = bytes.Contains(buf, f.want)
+	if n := len(buf) - len(f.want) + 1; n > 0 {
+		buf = buf[n:]
+	}
+	f.tail = append([]byte(nil), buf...)
+	return len(p), nil
+}
+
 func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{}) {
 	var err error
 	if !(t.Request.Method == "POST" || t.Request.Method == "PUT" || t.Request.Method == "PATCH") {
-- 
2.43.0


From 05acd0df0167d23d837889edba344f0a383947f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 34/35] fix: run the named phases in the phases they name

---
 seclang/parser/seclang_token.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seclang/parser/seclang_token.go b/seclang/parser/seclang_token.go
index 6c57d8f..82a8b39 100644
--- a/seclang/parser/seclang_token.go
+++ b/seclang/parser/seclang_token.go
@@ -173,10 +173,12 @@ const (
 	PhaseLogging         = 5
 )
 
+// phaseAlias maps phase names to the numbers the engine gives these phases.
+// The engine counts from the connection phase on.
 var phaseAlias = map[string]int{
-	"request":  PhaseRequestBody,
-	"response": PhaseResponseBody,
-	"logging":  PhaseLogging,
+	"request":  PhaseRequestBody + 1,
+	"response": PhaseResponseBody + 1,
+	"logging":  PhaseLogging + 1,
 }
 
 type DirectiveFactory func(*Scanner) (Directive, error)
-- 
2.43.0


From fcd601abedbaec8917b03fe2dca306320a286d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 35/35] fix: splitting an action list takes time proportional
 to its length

---
 seclang/parser/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index b56cd41..189e895 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -348,7 +348,11 @@ func splitActions(str string) ([]string, error) {
 	var actions []string
 	for {
 		end := strings.IndexByte(str, ',')
-		arg := strings.IndexByte(str, ':') + 1
+		action := str
+		if end >= 0 {
+			action = str[:end]
+		}
+		arg := strings.IndexByte(action, ':') + 1
 		for arg > 0 && arg < len(str) && isBlank(rune(str[arg])) {
 			arg++
 		}
-- 
2.43.0

