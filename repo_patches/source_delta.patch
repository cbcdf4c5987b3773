From 1c08704bd343881bb525b9e4c42e55a03307f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 01/39] fix: keep the result of a converted middleware per
 request

Mw kept a flag, telling whether the next handler has been called, in a variable
shared between all requests. It was a data race, and after a single request
passed through, a middleware that answered the request itself was treated as if
the request had not been handled.
---
 middleware.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..e01ccbf 100755
--- a/middleware.go
+++ b/middleware.go
@@ -17,12 +17,10 @@ type Middleware func(next Handler) Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
 				var args = r.Context().Value(argsKey).(*Args)
 				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
 			},
 		)
 
@@ -31,13 +29,14 @@ func Mw(mw func(http.Handler) http.Handler) Middleware {
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
 			var c = context.WithValue(r.Context(), argsKey, args)
 			r = r.WithContext(c)
-			h.ServeHTTP(w, r)
 
-			if nextHasBeenCalled {
-				return args.handled
-			}
+			// If the middleware doesn't call the next handler, it has handled
+			// the request itself. The converted handler is shared between
+			// requests, so the result must be kept in the request's args.
+			args.handled = true
+			h.ServeHTTP(w, r)
 
-			return true
+			return args.handled
 		}
 	}
 }
-- 
2.43.0


From 4fd75f22d7f2ad5277ecc5bede998f7049b7fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 02/39] fix: return the values as is when the template doesn't
 match

Match returned the values of the segments that matched before the mismatch.
They leaked into the request's values and constrained the siblings with the
same value name.
---
 template.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..888067e 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,9 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	// The values collected before a mismatch must not be returned.
+	var initialValues = values
+
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +447,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, initialValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +456,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, initialValues
 					}
 				} else {
 					if values == nil {
@@ -465,7 +468,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, initialValues
 			}
 		}
 	}
@@ -475,7 +478,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, initialValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +487,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, initialValues
 					}
 				} else {
 					if values == nil {
@@ -496,7 +499,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, initialValues
 			}
 		}
 	}
@@ -513,7 +516,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, initialValues
 		}
 	}
 
-- 
2.43.0


From cabd0ffc8857be26466a82ebe987a9e340433be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 03/39] fix: don't anchor the earlier repetitions of the last
 segment

When the last segment of the template repeated an earlier one, as in
"{a:\d}-{a}", the end-of-string anchor was put into the pattern shared by
both segments and the template couldn't match any string.
---
 template.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index 888067e..1817da6 100755
--- a/template.go
+++ b/template.go
@@ -1014,12 +1014,16 @@ func parse(tmplStr string) (
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		// The value-pattern may be shared with the previous repetitions of the
+		// segment, which must not match the end of the string.
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From 9365bf955cf133493d79220aab65984afadad38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 04/39] fix: accept an open curly brace inside a character
 class

The brace was counted as the beginning of a nested group, so a pattern such as
"[{}]" made the template invalid.
---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 1817da6..0849d15 100755
--- a/template.go
+++ b/template.go
@@ -736,7 +736,7 @@ func dynamicSegment(tmplStrSlc string) (
 
 	for i, idx, chClsIdx := 1, 1, -1; i < ltmplStrSlc; i++ {
 		var ch = tmplStrSlc[i]
-		if ch == '{' {
+		if ch == '{' && chClsIdx < 0 {
 			depth++
 			continue
 		}
-- 
2.43.0


From eb4f27323d9c33490fa2d3438ef6d1de5969f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 05/39] fix: apply only the values that match the whole pattern

A value with a matching prefix or suffix, like "12abc" for "\d+", was
accepted, and the result could not be matched by the template.
---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 0849d15..0034e7f 100755
--- a/template.go
+++ b/template.go
@@ -543,7 +543,7 @@ func (t *Template) TryToApply(
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
 				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				if idxs == nil || idxs[0] != 0 || idxs[1] != len(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From 7acb3126e97ed616a90fa45d4f2c06ca8d539083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/39] fix: anchor all the alternatives of a pattern

An ungrouped alternation was anchored only at its first or last alternative, so
"{n:5|10}" matched "710".
---
 template.go | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/template.go b/template.go
index 0034e7f..8ca4726 100755
--- a/template.go
+++ b/template.go
@@ -855,6 +855,46 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// groupedPattern puts the pattern into a non-capturing group if it has ungrouped
+// alternatives, so that the anchors added to the pattern apply to all of them.
+func groupedPattern(pattern string) string {
+	var depth, chClsIdx, lpattern = 0, -1, len(pattern)
+	for i := 0; i < lpattern; i++ {
+		var ch = pattern[i]
+		switch {
+		case ch == '\\':
+			if strings.HasPrefix(pattern[i:], `\Q`) {
+				var idx = strings.Index(pattern[i:], `\E`)
+				if idx < 0 {
+					return pattern
+				}
+
+				i += idx
+			}
+
+			i++
+		case chClsIdx >= 0:
+			if ch == ']' {
+				var d = i - chClsIdx
+				if d > 1 && !(d == 2 && pattern[i-1] == '^') {
+					// End of the character class.
+					chClsIdx = -1
+				}
+			}
+		case ch == '[':
+			chClsIdx = i
+		case ch == '(':
+			depth++
+		case ch == ')':
+			depth--
+		case ch == '|' && depth == 0:
+			return "(?:" + pattern + ")"
+		}
+	}
+
+	return pattern
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -873,9 +913,9 @@ func appendDynamicSegmentTo(
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-				pattern += "$"
+				pattern = groupedPattern(pattern) + "$"
 			} else {
-				pattern = "^" + pattern
+				pattern = "^" + groupedPattern(pattern)
 			}
 
 			if pattern != vp.re.String() {
@@ -936,9 +976,9 @@ func appendDynamicSegmentTo(
 	}
 
 	if wildcardIdx >= 0 {
-		pattern += "$"
+		pattern = groupedPattern(pattern) + "$"
 	} else {
-		pattern = "^" + pattern
+		pattern = "^" + groupedPattern(pattern)
 	}
 
 	var re, err = regexp.Compile(pattern)
-- 
2.43.0


From 1547e4a6b2258d368e9548aade22c3255bfedfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 07/39] fix: don't repeat the anchors of a pattern

The anchors added to a pattern are included in the template's string, and they
were added once more when that string was parsed, so Parse(t.String()) returned
a template that was different from t.
---
 template.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 8ca4726..c24fe37 100755
--- a/template.go
+++ b/template.go
@@ -895,6 +895,31 @@ func groupedPattern(pattern string) string {
 	return pattern
 }
 
+// anchoredAtTheStart adds the start-of-string anchor to the pattern if it
+// doesn't have one. The anchors are included in the template's string, and the
+// pattern parsed from that string must be the same.
+func anchoredAtTheStart(pattern string) string {
+	if strings.HasPrefix(pattern, "^") {
+		return pattern
+	}
+
+	return "^" + pattern
+}
+
+// anchoredAtTheEnd adds the end-of-string anchor to the pattern if it doesn't
+// have one.
+func anchoredAtTheEnd(pattern string) string {
+	if strings.HasSuffix(pattern, "$") {
+		var left = pattern[:len(pattern)-1]
+		var lbackslashes = len(left) - len(strings.TrimRight(left, `\`))
+		if lbackslashes%2 == 0 {
+			return pattern
+		}
+	}
+
+	return pattern + "$"
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -913,9 +938,9 @@ func appendDynamicSegmentTo(
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-				pattern = groupedPattern(pattern) + "$"
+				pattern = anchoredAtTheEnd(groupedPattern(pattern))
 			} else {
-				pattern = "^" + groupedPattern(pattern)
+				pattern = anchoredAtTheStart(groupedPattern(pattern))
 			}
 
 			if pattern != vp.re.String() {
@@ -961,7 +986,7 @@ func appendDynamicSegmentTo(
 		// string from the end to the wildcard segment.
 		for _, vp := range valuePatterns {
 			var p = vp.re.String()
-			p = p[1:] + "$"
+			p = anchoredAtTheEnd(p[1:])
 
 			var re, err = regexp.Compile(p)
 			if err != nil {
@@ -976,9 +1001,9 @@ func appendDynamicSegmentTo(
 	}
 
 	if wildcardIdx >= 0 {
-		pattern = groupedPattern(pattern) + "$"
+		pattern = anchoredAtTheEnd(groupedPattern(pattern))
 	} else {
-		pattern = "^" + groupedPattern(pattern)
+		pattern = anchoredAtTheStart(groupedPattern(pattern))
 	}
 
 	var re, err = regexp.Compile(pattern)
@@ -1057,7 +1082,7 @@ func parse(tmplStr string) (
 		// The value-pattern may be shared with the previous repetitions of the
 		// segment, which must not match the end of the string.
 		var re *regexp.Regexp
-		re, err = regexp.Compile(vp.re.String() + "$")
+		re, err = regexp.Compile(anchoredAtTheEnd(vp.re.String()))
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
-- 
2.43.0


From 0494cba36b73c547d225296ef948a4718e5f76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 08/39] fix: keep the escaped path when redirecting to the
 canonical URL

The redirects to the clean path and to the path with or without a trailing
slash changed only the unescaped or only the escaped form of the path. As a
result "%2F" was either escaped twice or turned into a separator.
---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 26 ++++++++++++++++++++++++++
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..14f34bc 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setPathTo(newURL)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				addTrailingSlashTo(newURL)
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				removeTrailingSlashFrom(newURL)
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..905c4af 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setPathTo(newURL)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			addTrailingSlashTo(newURL)
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			removeTrailingSlashFrom(newURL)
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 65ed7a6..e636e9a 100755
--- a/utils.go
+++ b/utils.go
@@ -99,6 +99,22 @@ func cloneRequestURL(r *http.Request) *url.URL {
 	return url
 }
 
+// addTrailingSlashTo adds a trailing slash to the URL's path. The escaped form
+// of the path, if there is one, must be kept the same as the path.
+func addTrailingSlashTo(url *url.URL) {
+	url.Path += "/"
+	if url.RawPath != "" {
+		url.RawPath += "/"
+	}
+}
+
+// removeTrailingSlashFrom removes the trailing slash from the URL's path. The
+// escaped form of the path, if there is one, must be kept the same as the path.
+func removeTrailingSlashFrom(url *url.URL) {
+	url.Path = strings.TrimSuffix(url.Path, "/")
+	url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+}
+
 func toUpperSplitByCommaSpace(str string) []string {
 	str = strings.TrimSpace(str)
 	var strs []string
@@ -509,6 +525,16 @@ func (args *Args) pathHasTrailingSlash() bool {
 
 // -------------------------
 
+// setPathTo sets the clean path of the request to the URL.
+func (args *Args) setPathTo(newURL *url.URL) {
+	newURL.Path, newURL.RawPath = args.path, ""
+	if args.rawPath {
+		if p, err := url.PathUnescape(args.path); err == nil {
+			newURL.Path, newURL.RawPath = p, args.path
+		}
+	}
+}
+
 // HostPathValues returns the host and path values of the request's URL.
 func (args *Args) HostPathValues() HostPathValues {
 	return args.hostPathValues
-- 
2.43.0


From d6cc3e913d90798bb0f3ee2406a4ba62e4083405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 09/39] fix: return the remaining path escaped as documented

When the request's path had no special escaping, the remaining path was
returned unescaped. A redirect of "/x%3Fy" went to "/x?y".
---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index e636e9a..c88ac06 100755
--- a/utils.go
+++ b/utils.go
@@ -544,6 +544,17 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var remainingPath = args.remainingPath()
+	if !args.rawPath {
+		remainingPath = (&url.URL{Path: remainingPath}).EscapedPath()
+	}
+
+	return remainingPath
+}
+
+// remainingPath returns the remaining path in the form in which the path of the
+// request's URL is kept.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From 6d1934cd6f439cfcff38b67a04bad07c4cb2f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 10/39] fix: return a URL that leads to the responder

URL used the escaped content of the static templates, so the backslashes of
"\{" appeared in the URL, and a slash inside of a segment wasn't escaped and
became a separator.
---
 utils.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index c88ac06..8282da0 100755
--- a/utils.go
+++ b/utils.go
@@ -341,7 +341,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -354,7 +354,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
@@ -367,10 +367,19 @@ loop:
 		}
 	}
 
-	var strb = strings.Builder{}
+	// A slash inside of a path segment is not a separator and must be escaped.
+	var hasSlash bool
+	var strb, rawStrb = strings.Builder{}, strings.Builder{}
 	for i := len(pss) - 1; i > -1; i-- {
 		strb.WriteByte('/')
 		strb.WriteString(pss[i])
+
+		rawStrb.WriteByte('/')
+		rawStrb.WriteString(url.PathEscape(pss[i]))
+
+		if strings.IndexByte(pss[i], '/') >= 0 {
+			hasSlash = true
+		}
 	}
 
 	switch rr := _r.(type) {
@@ -378,10 +387,12 @@ loop:
 		if (rr.HasTrailingSlash() && !rr.isRoot()) ||
 			(strb.Len() == 0 && rr.isRoot()) {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	case *Host:
 		if rr.HasTrailingSlash() {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	}
 
@@ -390,7 +401,12 @@ loop:
 		scheme = "https"
 	}
 
-	return &url.URL{Scheme: scheme, Host: host, Path: strb.String()}, nil
+	var rURL = &url.URL{Scheme: scheme, Host: host, Path: strb.String()}
+	if hasSlash {
+		rURL.RawPath = rawStrb.String()
+	}
+
+	return rURL, nil
 }
 
 // --------------------------------------------------
-- 
2.43.0


From 0bda4da1fad773bb4f25a016c997bb501f225a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 11/39] fix: set the router as the parent of the implicitly
 created root

The resources under it had no router, and the root resource could be registered
for the second time, which dropped all its child resources.
---
 router.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router.go b/router.go
index 568d8e5..d4ae6b7 100755
--- a/router.go
+++ b/router.go
@@ -1114,6 +1114,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
@@ -1329,6 +1330,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
-- 
2.43.0


From 37e4778cc608742b3bf608cd8f4e3b1719636887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 12/39] fix: reject the duplicate name of a host when it's
 created with a resource

RegisterResource, RegisterResourceUnder, and the methods that set a responder's
property at the URL created the second host with the same name if the URL also
had a path.
---
 router.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/router.go b/router.go
index d4ae6b7..73dfd3f 100755
--- a/router.go
+++ b/router.go
@@ -63,6 +63,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if err != nil {
 			return nil, newErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			return nil, newErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	if pTmplStr != "" {
@@ -105,10 +109,6 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 	if newHost {
 		_r.configure(secure, tslash, nil)
 
-		if h := ro.HostNamed(_r.Name()); h != nil {
-			return nil, newErr("%w", errDuplicateNameAmongSiblings)
-		}
-
 		err = ro.registerHost(_r.(*Host))
 		if err != nil {
 			// Unreachable.
@@ -1377,6 +1377,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 				panicWithErr("%w", err)
 			}
 
+			if newHost && ro.HostNamed(_r.Name()) != nil {
+				panicWithErr("%w", errDuplicateNameAmongSiblings)
+			}
+
 			// The following if statement should never be true.
 			if urlt.PrefixPath == "/" {
 				// Unreachable.
@@ -1524,6 +1528,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		if err != nil {
 			panicWithErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			panicWithErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	// Here, _r is either nil or has a valid pointer to a host.
-- 
2.43.0


From ad21d1f718a39a56de263cc442bb1febfe3728d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 13/39] fix: let the Router return the responders that haven't
 been configured yet

A host or resource created implicitly as a part of another URL could not be
retrieved with Host, HostUsingConfig, and RegisteredResource. They panicked,
unlike RegisteredHost and the responders' own methods, which configure it.
---
 router.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 73dfd3f..46a1472 100755
--- a/router.go
+++ b/router.go
@@ -892,7 +892,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -943,7 +947,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -1644,7 +1652,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 	if r, ok := _r.(*Resource); ok && r != nil {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantResource) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 
 		return _r.(*Resource)
-- 
2.43.0


From 23deb46ebddfa986a697e3cc4fcf8d95bef18e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 14/39] fix: find a registered host by its name

As documented, the host template of RegisteredHost and the other methods that
only look for an existing responder may contain only a name, but they panicked
with an invalid template error.
---
 router.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 46a1472..1b2a0ef 100755
--- a/router.go
+++ b/router.go
@@ -151,6 +151,20 @@ func (ro *Router) registeredHost(
 	return h, tmpl, nil
 }
 
+// registeredOrNamedHost returns an existing host. The host template may contain
+// only a name.
+func (ro *Router) registeredOrNamedHost(hTmplStr string) (*Host, error) {
+	if hTmplStr != "" {
+		var name, content, err = templateNameAndContent(hTmplStr)
+		if err == nil && name != "" && content == "" {
+			return ro.HostNamed(name), nil
+		}
+	}
+
+	var h, _, err = ro.registeredHost(hTmplStr)
+	return h, err
+}
+
 // registered_Responder returns an existing host or resource. The return value
 // host is set to true when the URL template contains only a host template,
 // even if that host doesn't exist.
@@ -172,7 +186,7 @@ func (ro *Router) registered_Responder(urlTmplStr string) (
 	}
 
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredOrNamedHost(hTmplStr)
 		if err != nil {
 			return nil, false, newErr("%w", err)
 		}
@@ -1033,7 +1047,7 @@ func (ro *Router) RegisteredHost(hostTmplStr string) *Host {
 	}
 
 	var h *Host
-	h, _, err = ro.registeredHost(hostTmplStr)
+	h, err = ro.registeredOrNamedHost(hostTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1621,7 +1635,7 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 
 	var _r _Responder
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredOrNamedHost(hTmplStr)
 		if err != nil {
 			panicWithErr("%w", err)
 		}
-- 
2.43.0


From 93fb92b870e2d8451d9d02b42f8ba9ce76b154bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 15/39] fix: apply the trailing slash of a subtree host to the
 shortest paths

A path with a single character, like "/a", was not redirected or dropped by the
subtree handler host with a trailing slash, while "/ab" was.
---
 host.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/host.go b/host.go
index 14f34bc..e28cf87 100755
--- a/host.go
+++ b/host.go
@@ -319,9 +319,9 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
-		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		// The path must have at least two characters for it to have
+		// or to need a trailing slash.
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0


From eb1f7a4643a863862cb8782c7f13f788ff102306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 16/39] fix: restore the passing responder when its child
 returns

The request passer's middlewares have seen the child resource, instead of
the responder passing the request, after the child's return.
---
 responder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/responder.go b/responder.go
index 9e12017..d4fa823 100755
--- a/responder.go
+++ b/responder.go
@@ -2326,6 +2326,7 @@ func (rb *_ResponderBase) passRequest(
 			args._r = sr.derived
 			args.handled = sr.requestReceiver(w, r, args)
 			args.currentPathSegmentIdx = currentPathSegmentIdx
+			args._r = rb.derived
 			return args.handled
 		}
 
@@ -2340,6 +2341,7 @@ func (rb *_ResponderBase) passRequest(
 				args._r = pr.derived
 				args.handled = pr.requestReceiver(w, r, args)
 				args.currentPathSegmentIdx = currentPathSegmentIdx
+				args._r = rb.derived
 				return args.handled
 			}
 		}
@@ -2353,6 +2355,7 @@ func (rb *_ResponderBase) passRequest(
 			args._r = rb.wildcardResource.derived
 			args.handled = rb.wildcardResource.requestReceiver(w, r, args)
 			args.currentPathSegmentIdx = currentPathSegmentIdx
+			args._r = rb.derived
 			return args.handled
 		}
 	}
-- 
2.43.0


From 57d63367dde7f4cb141b5f09775770309abfa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 17/39] fix: match an IPv6 host with and without a port by the
 same template

With a port the brackets were removed too, so no host template could match
both [::1] and [::1]:8080.
---
 host.go   | 5 +++--
 router.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/host.go b/host.go
index e28cf87..aa9e687 100755
--- a/host.go
+++ b/host.go
@@ -230,9 +230,10 @@ func (hb *Host) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	var args = getArgs(r.URL, hb.derived)
 	if host != "" {
 		if strings.LastIndexByte(host, ':') >= 0 {
-			var h, _, err = net.SplitHostPort(host)
+			var _, port, err = net.SplitHostPort(host)
 			if err == nil {
-				host = h
+				// The square brackets of an IPv6 address must be kept.
+				host = strings.TrimSuffix(host, ":"+port)
 			}
 		}
 
diff --git a/router.go b/router.go
index 1b2a0ef..ff0f5c6 100755
--- a/router.go
+++ b/router.go
@@ -1834,9 +1834,10 @@ func (ro *Router) passRequest(
 
 	if host != "" {
 		if strings.LastIndexByte(host, ':') >= 0 {
-			var h, _, err = net.SplitHostPort(host)
+			var _, port, err = net.SplitHostPort(host)
 			if err == nil {
-				host = h
+				// The square brackets of an IPv6 address must be kept.
+				host = strings.TrimSuffix(host, ":"+port)
 			}
 		}
 
-- 
2.43.0


From 78f40ccbfbf0298e395e737cfcb03f8577663e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 18/39] fix: redirect to the path without any trailing slash

When the responder is lenient on unclean paths, the redirect of /a// led to
/a/, which was then redirected to /a.
---
 utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 8282da0..311d99b 100755
--- a/utils.go
+++ b/utils.go
@@ -111,8 +111,11 @@ func addTrailingSlashTo(url *url.URL) {
 // removeTrailingSlashFrom removes the trailing slash from the URL's path. The
 // escaped form of the path, if there is one, must be kept the same as the path.
 func removeTrailingSlashFrom(url *url.URL) {
-	url.Path = strings.TrimSuffix(url.Path, "/")
-	url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+	// An unclean path may end with several slashes. The encoded ones are kept.
+	for strings.HasSuffix(url.EscapedPath(), "/") {
+		url.Path = strings.TrimSuffix(url.Path, "/")
+		url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+	}
 }
 
 func toUpperSplitByCommaSpace(str string) []string {
-- 
2.43.0


From 32662c63d773857ca84fda88817df40bdaa4b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 19/39] fix: register a resource by its URL template under the
 resources of the root

The root was compared with the first segment of the template's path, so the
registration has always panicked.
---
 responder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index d4fa823..ff19ec6 100755
--- a/responder.go
+++ b/responder.go
@@ -522,7 +522,13 @@ func (rb *_ResponderBase) validateURL(hostTmplStr string, pathTmplStr string) (
 	}
 
 	var lresources = len(resources)
-	if _, ok := resources[0].(*Host); ok {
+	var _, top = resources[0].(*Host)
+	if r, ok := resources[0].(*Resource); ok && r.isRoot() {
+		// The root has no path segment of its own.
+		top = true
+	}
+
+	if top {
 		if lresources == 1 {
 			if pathTmplStr == "" || pathTmplStr == "/" {
 				return "", nil
-- 
2.43.0


From 5c148a3dbf09736de237e9f0e0b3a5ebc270c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 20/39] fix: ignore the trailing slash properties in the root's
 configuration

Router.ResourceUsingConfig has given them to the root, unlike all the other
ways to configure it, so the requests for / were redirected to //.
---
 router.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/router.go b/router.go
index ff0f5c6..ba74b93 100755
--- a/router.go
+++ b/router.go
@@ -1261,6 +1261,17 @@ func (ro *Router) ResourceUsingConfig(
 		panicWithErr("%w", errConflictingSecurity)
 	}
 
+	if hTmplStr == "" && pTmplStr == "/" {
+		config.HasTrailingSlash = false
+		config.LenientOnTrailingSlash = false
+		config.StrictOnTrailingSlash = false
+
+		if config.HandlesThePathAsIs {
+			config.LenientOnUncleanPath = true
+			config.HandlesThePathAsIs = false
+		}
+	}
+
 	var _r _Responder
 	var newHost bool
 	if hTmplStr != "" {
-- 
2.43.0


From 7c67dd1410c1bc6bb787b94adceea2f8246be770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 21/39] fix: keep the encoded slashes of a path with unescaped
 characters

---
 utils.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 311d99b..619841f 100755
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,7 @@
 package nanomux
 
 import (
+	"fmt"
 	"net/http"
 	"net/url"
 	"path"
@@ -96,9 +97,29 @@ func cloneRequestURL(r *http.Request) *url.URL {
 		url.Host = r.Host
 	}
 
+	url.RawPath = escapeUnsafeCharsOf(url.RawPath)
 	return url
 }
 
+// escapeUnsafeCharsOf escapes the characters of the raw path that must not be
+// sent as is. The URL ignores the raw path that has such characters and thereby
+// loses the encoded slashes of the path segments.
+func escapeUnsafeCharsOf(rawPath string) string {
+	const safeChars = "-_.~!$&'()*+,;=:@[]%/"
+	var strb = strings.Builder{}
+	for i := 0; i < len(rawPath); i++ {
+		var c = rawPath[i]
+		if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+			(c >= '0' && c <= '9') || strings.IndexByte(safeChars, c) >= 0 {
+			strb.WriteByte(c)
+		} else {
+			fmt.Fprintf(&strb, "%%%02X", c)
+		}
+	}
+
+	return strb.String()
+}
+
 // addTrailingSlashTo adds a trailing slash to the URL's path. The escaped form
 // of the path, if there is one, must be kept the same as the path.
 func addTrailingSlashTo(url *url.URL) {
@@ -549,7 +570,7 @@ func (args *Args) setPathTo(newURL *url.URL) {
 	newURL.Path, newURL.RawPath = args.path, ""
 	if args.rawPath {
 		if p, err := url.PathUnescape(args.path); err == nil {
-			newURL.Path, newURL.RawPath = p, args.path
+			newURL.Path, newURL.RawPath = p, escapeUnsafeCharsOf(args.path)
 		}
 	}
 }
-- 
2.43.0


From 4668666879b3089a3af5a66b6206c6fa94022121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 22/39] fix: route one-character relative paths like the longer
 ones

---
 utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index 619841f..76ea918 100755
--- a/utils.go
+++ b/utils.go
@@ -491,16 +491,16 @@ type Args struct {
 // getArgs returns an instance of Args adapted to the URL.
 func getArgs(url *url.URL, _r _Responder) *Args {
 	var args = getArgsFromThePool(url, _r)
+	if args.path != "" && args.path != "*" && args.path[0] != '/' {
+		args.path = "/" + args.path
+	}
+
 	if len(args.path) > 1 {
 		var trailingSlash bool
 		if args.path[len(args.path)-1] == '/' {
 			trailingSlash = true
 		}
 
-		if args.path[0] != '/' {
-			args.path = "/" + args.path
-		}
-
 		var cleanPath = path.Clean(args.path)
 		if trailingSlash && len(cleanPath) > 1 {
 			cleanPath += "/"
-- 
2.43.0


From b78c167b1230f6a45150c136900e7770a823b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 23/39] fix: accept the quoted literals in a pattern

---
 template.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/template.go b/template.go
index c24fe37..38c1972 100755
--- a/template.go
+++ b/template.go
@@ -807,6 +807,14 @@ func dynamicSegment(tmplStrSlc string) (
 
 		if sliceType == 1 {
 			if ch == '\\' {
+				if chClsIdx < 0 && strings.HasPrefix(tmplStrSlc[i:], `\Q`) {
+					// The text until "\E" is literal.
+					var lliteral = strings.Index(tmplStrSlc[i:], `\E`)
+					if lliteral > 0 {
+						i += lliteral
+					}
+				}
+
 				i++
 				// Backslack in a regular expression escapes any character.
 				continue
-- 
2.43.0


From 7911bf3190b9b4b2ec13e1dca712837583f1443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 24/39] fix: print a template so that it can be parsed back

---
 template.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 38c1972..e7cc754 100755
--- a/template.go
+++ b/template.go
@@ -583,7 +583,20 @@ func (t *Template) Apply(values TemplateValues, ignoreMissing bool) string {
 // repeated regexp segments starting from the second repetition.
 func (t *Template) String() string {
 	var strb = strings.Builder{}
-	if t.name != "" {
+	if t.name == "" || strings.HasSuffix(t.name, `\`) {
+		// A name that ends with a backslash can come only from the single
+		// dynamic segment. Written explicitly, it would escape the colon.
+		if len(t.slices) > 0 {
+			if strings.HasPrefix(t.slices[0].staticStr, `\$`) {
+				// Without an empty name, the static segment would lose its
+				// backslash.
+				strb.WriteString("$:")
+			} else if t.name != "" &&
+				strings.HasPrefix(t.slices[0].staticStr, "$") {
+				strb.WriteByte('\\')
+			}
+		}
+	} else {
 		strb.WriteByte('$')
 		var str = t.name
 		for len(str) > 0 {
-- 
2.43.0


From 0cea6196fd905b5cde6cfb0c238b54e454a928dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 25/39] fix: reject the patterns that aren't valid on their own

---
 template.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/template.go b/template.go
index e7cc754..443ad0d 100755
--- a/template.go
+++ b/template.go
@@ -823,9 +823,11 @@ func dynamicSegment(tmplStrSlc string) (
 				if chClsIdx < 0 && strings.HasPrefix(tmplStrSlc[i:], `\Q`) {
 					// The text until "\E" is literal.
 					var lliteral = strings.Index(tmplStrSlc[i:], `\E`)
-					if lliteral > 0 {
-						i += lliteral
+					if lliteral < 0 {
+						break
 					}
+
+					i += lliteral
 				}
 
 				i++
@@ -879,6 +881,7 @@ func dynamicSegment(tmplStrSlc string) (
 // groupedPattern puts the pattern into a non-capturing group if it has ungrouped
 // alternatives, so that the anchors added to the pattern apply to all of them.
 func groupedPattern(pattern string) string {
+	var hasAlternatives bool
 	var depth, chClsIdx, lpattern = 0, -1, len(pattern)
 	for i := 0; i < lpattern; i++ {
 		var ch = pattern[i]
@@ -908,11 +911,19 @@ func groupedPattern(pattern string) string {
 			depth++
 		case ch == ')':
 			depth--
+			if depth < 0 {
+				// The group must not balance the parentheses.
+				return pattern
+			}
 		case ch == '|' && depth == 0:
-			return "(?:" + pattern + ")"
+			hasAlternatives = true
 		}
 	}
 
+	if hasAlternatives {
+		return "(?:" + pattern + ")"
+	}
+
 	return pattern
 }
 
-- 
2.43.0


From add30c8f07a1916600bf0e83b41d01903041638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 26/39] fix: tell apart the templates that repeat different
 segments

---
 template.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/template.go b/template.go
index 443ad0d..173150d 100755
--- a/template.go
+++ b/template.go
@@ -398,6 +398,15 @@ func (t *Template) SimilarityWith(t2 *Template) Similarity {
 			return Different
 		}
 
+		for j := 0; j < i; j++ {
+			var vp1, vp2 = t.slices[j].valuePattern, t2.slices[j].valuePattern
+			if vp1 != nil && (vp1.name == slc1.valuePattern.name) !=
+				(vp2.name == slc2.valuePattern.name) {
+				// Only one of the templates requires the same value here.
+				return Different
+			}
+		}
+
 		if slc1.valuePattern.re != nil && slc2.valuePattern.re != nil {
 			if slc1.valuePattern.re.String() != slc2.valuePattern.re.String() {
 				return Different
-- 
2.43.0


From e91a8afbc619c588e20715e89fcf2a253d089efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 27/39] fix: key the static hosts by their unescaped templates

---
 router.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index ba74b93..cbb1e58 100755
--- a/router.go
+++ b/router.go
@@ -746,7 +746,7 @@ func (ro *Router) RedirectAnyRequestAt(
 // different names or value names, the method returns an error.
 func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 	if tmpl.IsStatic() && ro.staticHosts != nil {
-		var h = ro.staticHosts[tmpl.Content()]
+		var h = ro.staticHosts[tmpl.UnescapedContent()]
 		if h != nil {
 			var stmpl = h.Template()
 			if stmpl == tmpl {
@@ -785,7 +785,7 @@ func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 func (ro *Router) replaceHost(oldH, newH *Host) error {
 	var tmpl = oldH.Template()
 	if tmpl.IsStatic() {
-		ro.staticHosts[tmpl.Content()] = newH
+		ro.staticHosts[tmpl.UnescapedContent()] = newH
 	} else {
 		var idx = -1
 		for i, h := range ro.patternHosts {
@@ -821,7 +821,7 @@ func (ro *Router) registerHost(h *Host) error {
 			ro.staticHosts = make(map[string]*Host)
 		}
 
-		ro.staticHosts[tmpl.Content()] = h
+		ro.staticHosts[tmpl.UnescapedContent()] = h
 	} else {
 		ro.patternHosts = append(ro.patternHosts, h)
 	}
-- 
2.43.0


From 6fd09ddd9dfcb72b610b9572cfd4716ae9e914aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 28/39] fix: reject a root as a child before changing the
 parent

---
 responder.go | 11 ++++++-----
 router.go    | 14 +++++++++++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/responder.go b/responder.go
index ff19ec6..36bc31d 100755
--- a/responder.go
+++ b/responder.go
@@ -745,6 +745,12 @@ func (rb *_ResponderBase) replaceResource(oldR, newR *Resource) error {
 // as its parent. The method doesn't check if an existing resource with the
 // same template exists or not.
 func (rb *_ResponderBase) registerResource(r *Resource) error {
+	// The parent is rejected before anything is changed.
+	var err = r.setParent(rb.derived)
+	if err != nil {
+		return newErr("%w", err)
+	}
+
 	switch tmpl := r.Template(); {
 	case tmpl.IsStatic():
 		if rb.staticResources == nil {
@@ -758,11 +764,6 @@ func (rb *_ResponderBase) registerResource(r *Resource) error {
 		rb.patternResources = append(rb.patternResources, r)
 	}
 
-	var err = r.setParent(rb.derived)
-	if err != nil {
-		return newErr("%w", err)
-	}
-
 	return nil
 }
 
diff --git a/router.go b/router.go
index cbb1e58..242e1a4 100755
--- a/router.go
+++ b/router.go
@@ -88,7 +88,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 			if newFirst != nil {
 				newLast.configure(secure, tslash, nil)
 
-				_r.registerResource(newFirst)
+				if err = _r.registerResource(newFirst); err != nil {
+					return nil, newErr("%w", err)
+				}
+
 				if newHost {
 					// When newHost is true _r would still be holding
 					// a pointer to a newly created host.
@@ -1194,7 +1197,9 @@ func (ro *Router) Resource(urlTmplStr string) *Resource {
 
 		if newFirst != nil {
 			newLast.configure(secure, tslash, nil)
-			_r.registerResource(newFirst)
+			if err = _r.registerResource(newFirst); err != nil {
+				panicWithErr("%w", err)
+			}
 
 			if newHost {
 				if ro.HostNamed(_r.Name()) != nil {
@@ -1303,7 +1308,10 @@ func (ro *Router) ResourceUsingConfig(
 			var cfs = config.asFlags()
 			newLast.configure(secure, tslash, &cfs)
 
-			_r.registerResource(newFirst)
+			if err = _r.registerResource(newFirst); err != nil {
+				panicWithErr("%w", err)
+			}
+
 			if newHost {
 				err = ro.registerHost(_r.(*Host))
 				if err != nil {
-- 
2.43.0


From afd6cc174a8290c45b9b2f06be3bf75213adabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 29/39] fix: reject the registration of conflicting children
 before any is passed

---
 responder.go | 64 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index 36bc31d..bca2191 100755
--- a/responder.go
+++ b/responder.go
@@ -59,6 +59,8 @@ type _Responder interface {
 
 	resourceWithTemplate(tmpl *Template) (*Resource, error)
 	registeredResource(pathTmplStr string) (r *Resource, tslash bool, err error)
+	checkResourceCanBeKept(r *Resource) error
+	checkChildResourcesCanBePassedTo(r _Responder) error
 	passChildResourcesTo(r _Responder) error
 	registerResource(r *Resource) error
 	segmentResources(pathSegments []string) (
@@ -675,9 +677,69 @@ func (rb *_ResponderBase) registeredResource(
 	return r, psi.pathHasTrailingSlash(), nil
 }
 
+// checkResourceCanBeKept checks whether the keepResourceOrItsChildResources
+// method would succeed. Nothing is changed.
+func (rb *_ResponderBase) checkResourceCanBeKept(r *Resource) error {
+	var rwt, err = rb.resourceWithTemplate(r.Template())
+	if err != nil {
+		return newErr("%w", err)
+	}
+
+	if rwt == nil {
+		if nr := rb.ChildResourceNamed(r.Name()); nr != nil {
+			return newErr("%w", errDuplicateNameAmongSiblings)
+		}
+
+		return nil
+	}
+
+	var rcfs = r.configFlags()
+	err = rwt.checkForConfigCompatibility(
+		rcfs.has(flagSecure),
+		rcfs.has(flagTrailingSlash),
+		&rcfs,
+	)
+
+	if err != nil && !errors.Is(err, errDormantResource) {
+		return newErr("%w", err)
+	}
+
+	if !r.canHandleRequest() {
+		return r.checkChildResourcesCanBePassedTo(rwt)
+	}
+
+	if !rwt.canHandleRequest() {
+		return rwt.checkChildResourcesCanBePassedTo(r)
+	}
+
+	return newErr(
+		"%w %s",
+		errDuplicateResourceTemplate,
+		rwt.Template().String(),
+	)
+}
+
+// checkChildResourcesCanBePassedTo checks whether the passChildResourcesTo
+// method would succeed. Nothing is changed.
+func (rb *_ResponderBase) checkChildResourcesCanBePassedTo(
+	r _Responder,
+) error {
+	for _, chr := range rb.ChildResources() {
+		if err := r.checkResourceCanBeKept(chr); err != nil {
+			return newErr("%w", err)
+		}
+	}
+
+	return nil
+}
+
 // passChildResourcesTo method transfers all of the child resources to the
-// argument resource.
+// argument resource. If any of them cannot be transferred, none is.
 func (rb *_ResponderBase) passChildResourcesTo(r _Responder) error {
+	if err := rb.checkChildResourcesCanBePassedTo(r); err != nil {
+		return newErr("%w", err)
+	}
+
 	for _, rr := range rb.staticResources {
 		if err := r.keepResourceOrItsChildResources(rr); err != nil {
 			return newErr("%w", err)
-- 
2.43.0


From bb6cb3f123b7feb23996e730951fc08981b2cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 30/39] fix: a method with another signature hides the handler
 method of the same HTTP method

---
 requesthandler.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..33d48dd 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -190,17 +190,6 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 	// names.
 	var hmns = make(map[string]string)
 	var t = reflect.TypeOf(impl)
-	for i, nm := 0, t.NumMethod(); i < nm; i++ {
-		var m = t.Method(i)
-		var hm = strings.TrimPrefix(m.Name, "Handle")
-		if hm != m.Name {
-			hm = strings.ToUpper(hm)
-			hmns[hm] = m.Name
-		}
-	}
-
-	var handlers = _MethodHandlerPairs{}
-	var notAllowedHTTPMethodsHandler Handler
 
 	// reflect.Value allows us to compare method signatures directly instead of
 	// the signatures of their function values.
@@ -213,6 +202,23 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 		},
 	)
 
+	for i, nm := 0, t.NumMethod(); i < nm; i++ {
+		var m = t.Method(i)
+		var hm = strings.TrimPrefix(m.Name, "Handle")
+		if hm != m.Name {
+			if v.Method(i).Type() != handlerType {
+				// Method doesn't have the signature of the Handler.
+				continue
+			}
+
+			hm = strings.ToUpper(hm)
+			hmns[hm] = m.Name
+		}
+	}
+
+	var handlers = _MethodHandlerPairs{}
+	var notAllowedHTTPMethodsHandler Handler
+
 	for hm, n := range hmns {
 		var m = v.MethodByName(n)
 		if m.Kind() != reflect.Func {
@@ -220,11 +226,6 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 			continue
 		}
 
-		if m.Type() != handlerType {
-			// Method doesn't have the signature of the Handler.
-			continue
-		}
-
 		var hf, ok = m.Interface().(func(
 			http.ResponseWriter,
 			*http.Request,
-- 
2.43.0


From ce345868e8ec1fe31218c65295efb4e3687a275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 31/39] fix: compare the relative URL template of a resource
 with the prefix path

---
 responder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/responder.go b/responder.go
index bca2191..52201a6 100755
--- a/responder.go
+++ b/responder.go
@@ -1318,6 +1318,10 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 	}
 
 	if urlt := r.urlTmpl(); urlt != nil {
+		if urlt.PrefixPath != "" && urlt.PrefixPath[0] != '/' {
+			urlt.PrefixPath = "/" + urlt.PrefixPath
+		}
+
 		var lpp, lurltPp = len(prefixPath), len(urlt.PrefixPath)
 		if lpp > 0 {
 			if lastIdx := lpp - 1; prefixPath[lastIdx] == '/' {
-- 
2.43.0


From a630a28103b51e434219714a2360c71971d42870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 32/39] fix: reject a resource whose URL template conflicts
 with the prefix path

---
 responder.go |  8 ++------
 router.go    | 30 ++++++++++++++----------------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/responder.go b/responder.go
index 52201a6..697ef37 100755
--- a/responder.go
+++ b/responder.go
@@ -1330,15 +1330,11 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 			}
 		}
 
-		if lpp > lurltPp {
+		if !strings.HasSuffix(urlt.PrefixPath, prefixPath) {
 			panicWithErr("%w", errConflictingPath)
 		}
 
-		var pp = urlt.PrefixPath
-		if strings.HasSuffix(urlt.PrefixPath, prefixPath) {
-			pp = urlt.PrefixPath[:lurltPp-lpp]
-		}
-
+		var pp = urlt.PrefixPath[:lurltPp-lpp]
 		var rppss, err = rb.validateURL(urlt.Host, pp)
 		if err != nil {
 			panicWithErr("%w", err)
diff --git a/router.go b/router.go
index 242e1a4..92c5e57 100755
--- a/router.go
+++ b/router.go
@@ -1539,26 +1539,24 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 			}
 		}
 
-		if urlt.PrefixPath != "" && pTmplStr != "/" {
-			var lpTmplStr = len(pTmplStr)
-			if lpTmplStr > 0 {
-				if lastIdx := lpTmplStr - 1; pTmplStr[lastIdx] == '/' {
-					pTmplStr = pTmplStr[:lastIdx]
-					lpTmplStr--
-				}
+		var lpTmplStr = len(pTmplStr)
+		if lpTmplStr > 0 {
+			if lastIdx := lpTmplStr - 1; pTmplStr[lastIdx] == '/' {
+				pTmplStr = pTmplStr[:lastIdx]
+				lpTmplStr--
 			}
+		}
 
-			if urlt.PrefixPath[0] != '/' {
-				urlt.PrefixPath = "/" + urlt.PrefixPath
-			}
+		if urlt.PrefixPath != "" && urlt.PrefixPath[0] != '/' {
+			urlt.PrefixPath = "/" + urlt.PrefixPath
+		}
 
-			if lpTmplStr != len(urlt.PrefixPath) {
-				panicWithErr("%w", errConflictingPath)
-			}
+		if lpTmplStr != len(urlt.PrefixPath) {
+			panicWithErr("%w", errConflictingPath)
+		}
 
-			if pTmplStr != urlt.PrefixPath {
-				panicWithErr("%w", errConflictingPath)
-			}
+		if pTmplStr != urlt.PrefixPath {
+			panicWithErr("%w", errConflictingPath)
 		}
 	}
 
-- 
2.43.0


From 8cf1c130f0f1b10955b8ec6e0f9f36aa0c78f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 33/39] fix: keep the URL template of a resource whose
 registration has been rejected

---
 resource.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resource.go b/resource.go
index 905c4af..0f48344 100755
--- a/resource.go
+++ b/resource.go
@@ -310,9 +310,7 @@ func newRootResource() *Resource {
 // }
 
 func (rb *Resource) urlTmpl() *_URLTmpl {
-	var urlt = rb.urlt
-	rb.urlt = nil
-	return urlt
+	return rb.urlt
 }
 
 // -------------------------
-- 
2.43.0


From 6b096d607a08aee44481669ee11679cf02be29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 34/39] fix: detach a child resource whose child resources were
 passed to the existing one

When the child resources of a responder are passed to another one, and one of
them is superseded by an existing resource with the same template, its parent
was left to be the responder it had been taken from.
---
 responder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/responder.go b/responder.go
index 697ef37..6b0d865 100755
--- a/responder.go
+++ b/responder.go
@@ -1037,6 +1037,13 @@ func (rb *_ResponderBase) keepResourceOrItsChildResources(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		// The resource may have been a child of another responder.
+		err = r.setParent(nil)
+		if err != nil {
+			// Unreachable.
+			return newErr("%w", err)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 995877c3c97d1fe88fd2919886ed250fd4e124ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 35/39] fix: keep the multi-line flag of a pattern from
 applying to its added anchors

---
 template.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/template.go b/template.go
index 173150d..0978482 100755
--- a/template.go
+++ b/template.go
@@ -888,9 +888,10 @@ func dynamicSegment(tmplStrSlc string) (
 }
 
 // groupedPattern puts the pattern into a non-capturing group if it has ungrouped
-// alternatives, so that the anchors added to the pattern apply to all of them.
+// alternatives, so that the anchors added to the pattern apply to all of them,
+// or an ungrouped multi-line flag, so that it doesn't apply to the anchors.
 func groupedPattern(pattern string) string {
-	var hasAlternatives bool
+	var mustBeGrouped bool
 	var depth, chClsIdx, lpattern = 0, -1, len(pattern)
 	for i := 0; i < lpattern; i++ {
 		var ch = pattern[i]
@@ -917,6 +918,10 @@ func groupedPattern(pattern string) string {
 		case ch == '[':
 			chClsIdx = i
 		case ch == '(':
+			if depth == 0 && setsMultiLineFlag(pattern[i:]) {
+				mustBeGrouped = true
+			}
+
 			depth++
 		case ch == ')':
 			depth--
@@ -925,17 +930,38 @@ func groupedPattern(pattern string) string {
 				return pattern
 			}
 		case ch == '|' && depth == 0:
-			hasAlternatives = true
+			mustBeGrouped = true
 		}
 	}
 
-	if hasAlternatives {
+	if mustBeGrouped {
 		return "(?:" + pattern + ")"
 	}
 
 	return pattern
 }
 
+// setsMultiLineFlag returns true if the pattern starts with flags that set the
+// multi-line mode for what follows them, as "(?m)" and "(?im-s)" do.
+func setsMultiLineFlag(pattern string) bool {
+	if !strings.HasPrefix(pattern, "(?") {
+		return false
+	}
+
+	for i := 2; i < len(pattern); i++ {
+		switch pattern[i] {
+		case 'm':
+			var idx = strings.IndexAny(pattern[i:], "):")
+			return idx >= 0 && pattern[i+idx] == ')'
+		case 'i', 's', 'U':
+		default:
+			return false
+		}
+	}
+
+	return false
+}
+
 // anchoredAtTheStart adds the start-of-string anchor to the pattern if it
 // doesn't have one. The anchors are included in the template's string, and the
 // pattern parsed from that string must be the same.
-- 
2.43.0


From 5a36bc9e40b79891096d079f04c11048baec48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 36/39] fix: find the end of a character class that contains a
 named class

A bracket that closes a named class, as in [[:alpha:]}], was taken for the end
of the character class, and the braces, bars and parentheses after it for a
part of the template's syntax.
---
 template.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index 0978482..13a6cf1 100755
--- a/template.go
+++ b/template.go
@@ -845,7 +845,9 @@ func dynamicSegment(tmplStrSlc string) (
 			}
 
 			if chClsIdx >= 0 {
-				if ch == ']' {
+				if lcls := lengthOfNamedClass(tmplStrSlc[i:]); lcls > 0 {
+					i += lcls - 1
+				} else if ch == ']' {
 					var d = i - chClsIdx
 					if d > 1 && !(d == 2 && tmplStrSlc[i-1] == '^') {
 						// End of the character class.
@@ -887,6 +889,29 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// lengthOfNamedClass returns the length of the named character class, such as
+// "[:alpha:]" or "[:^digit:]", at the beginning of the string. If there is no
+// named character class, it returns 0.
+func lengthOfNamedClass(str string) int {
+	if !strings.HasPrefix(str, "[:") {
+		return 0
+	}
+
+	for i := 2; i < len(str); i++ {
+		if str[i] == '^' && i == 2 || str[i] >= 'a' && str[i] <= 'z' {
+			continue
+		}
+
+		if strings.HasPrefix(str[i:], ":]") {
+			return i + 2
+		}
+
+		break
+	}
+
+	return 0
+}
+
 // groupedPattern puts the pattern into a non-capturing group if it has ungrouped
 // alternatives, so that the anchors added to the pattern apply to all of them,
 // or an ungrouped multi-line flag, so that it doesn't apply to the anchors.
@@ -908,7 +933,9 @@ func groupedPattern(pattern string) string {
 
 			i++
 		case chClsIdx >= 0:
-			if ch == ']' {
+			if lcls := lengthOfNamedClass(pattern[i:]); lcls > 0 {
+				i += lcls - 1
+			} else if ch == ']' {
 				var d = i - chClsIdx
 				if d > 1 && !(d == 2 && pattern[i-1] == '^') {
 					// End of the character class.
-- 
2.43.0


From df0a86397855069d305f098f447c762e9fbda274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 37/39] fix: take only the URLs with a scheme for absolute in
 configured redirects

A relative URL of which the first letters are http, as httpdocs/new, wasn't
made relative to the root: requests were redirected to a URL that depends on
the path of the request.
---
 requesthandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/requesthandler.go b/requesthandler.go
index 33d48dd..5d6585d 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -617,7 +617,8 @@ func redirector(
 		)
 	}
 
-	if tUrl := strings.TrimPrefix(url, "http"); len(tUrl) == lUrl {
+	if !strings.HasPrefix(url, "http://") &&
+		!strings.HasPrefix(url, "https://") {
 		if url[0] != '/' {
 			url = "/" + url
 			lUrl = len(url)
-- 
2.43.0


From 78f2374413dbf205ae42668df19739c315e45214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 38/39] fix: give each root resource its own template

---
 resource.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/resource.go b/resource.go
index 0f48344..5ef745d 100755
--- a/resource.go
+++ b/resource.go
@@ -14,6 +14,7 @@ import (
 type Resource struct {
 	_ResponderBase
 	urlt *_URLTmpl
+	root bool
 }
 
 // createDormantResource creates a dormant, not configured resource.
@@ -24,7 +25,7 @@ func createDormantResource(tmpl *Template) (*Resource, error) {
 
 	var r = &Resource{}
 	r.derived = r
-	r.tmpl = tmpl
+	r.setTemplate(tmpl)
 	r.requestReceiver = r.handleOrPassRequest
 	r.requestPasser = r.passRequest
 	return r, nil
@@ -102,7 +103,7 @@ func createResource(
 	}
 
 	r.derived = r
-	r.tmpl = tmpl
+	r.setTemplate(tmpl)
 	r.requestReceiver = r.handleOrPassRequest
 	r.requestPasser = r.passRequest
 	return r, nil
@@ -336,9 +337,21 @@ func (rb *Resource) Parent() *Resource {
 
 // -------------------------
 
+// setTemplate sets the template of the resource. A root resource gets its own
+// copy of the root template, so that changing it doesn't change other roots.
+func (rb *Resource) setTemplate(tmpl *Template) {
+	if tmpl == rootTmpl {
+		var rootTmplCopy = *rootTmpl
+		tmpl = &rootTmplCopy
+		rb.root = true
+	}
+
+	rb.tmpl = tmpl
+}
+
 // isRoot returns true if the resource is a root resource.
 func (rb *Resource) isRoot() bool {
-	return rb.tmpl == rootTmpl
+	return rb.root
 }
 
 // -------------------------
@@ -348,7 +361,7 @@ func (rb *Resource) isRoot() bool {
 func (rb *Resource) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	var args = getArgs(r.URL, rb.derived)
 	args.nextPathSegment() // First call returns '/'.
-	if rb.tmpl == rootTmpl {
+	if rb.root {
 		if !rb.requestReceiver(w, r, args) {
 			notFoundResourceHandler(w, r, args)
 		}
-- 
2.43.0


From 6702fe1beb7a92a0230f37b37316a259db6c2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:38 +0000
Subject: [PATCH 39/39] fix: remove the trailing slashes of a path in linear
 time

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 76ea918..69e751a 100755
--- a/utils.go
+++ b/utils.go
@@ -133,7 +133,8 @@ func addTrailingSlashTo(url *url.URL) {
 // escaped form of the path, if there is one, must be kept the same as the path.
 func removeTrailingSlashFrom(url *url.URL) {
 	// An unclean path may end with several slashes. The encoded ones are kept.
-	for strings.HasSuffix(url.EscapedPath(), "/") {
+	var p = url.EscapedPath()
+	for n := len(p) - len(strings.TrimRight(p, "/")); n > 0; n-- {
 		url.Path = strings.TrimSuffix(url.Path, "/")
 		url.RawPath = strings.TrimSuffix(url.RawPath, "/")
 	}
-- 
2.43.0

