From 41c2519b4c9e7fe2380ef74211cf8e9fffa68601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 01/24] fix: keep the original bytes of invalid UTF-8 in
 extended mode

---
 tokenizer/lattice/lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..7c77f58 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -254,12 +254,13 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
 		i := 0
-		for k, r := range p.Surface {
+		for k := range p.Surface {
+			_, size := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+size], // original bytes, also if they are not valid UTF-8
 				Position: p.Position + k,
 			})
 			i++
-- 
2.43.0


From f6110afccac124fc4ee136ce6801859303d9d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 02/24] fix: do not cut U+FFFD in an unknown word of an
 ungrouped category

---
 tokenizer/lattice/lattice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 7c77f58..075c0f1 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -141,7 +141,9 @@ func (la *Lattice) Build(inp string) {
 			if ch != utf8.RuneError {
 				endPos = pos + utf8.RuneLen(ch)
 			} else {
-				endPos = pos + 1
+				// an invalid byte or a (valid) U+FFFD in the input
+				_, size := utf8.DecodeRuneInString(inp[pos:])
+				endPos = pos + size
 			}
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
-- 
2.43.0


From 334220c5a07bf033f3f122c32e5e3effe6c7a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 03/24] fix: never follow a node that is not reachable from BOS

When the total cost saturates, the nodes that no path from BOS leads to have
the same cost as the others and could be chosen, which lost the beginning of
the input.
---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 075c0f1..ebb2118 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -221,7 +221,11 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				la.list[i][index].Cost = maximumCost
 				continue
 			}
+			la.list[i][index].Cost, la.list[i][index].prev = maximumCost, nil
 			for j, n := range prevList {
+				if n.prev == nil && n.Class != DUMMY {
+					continue // not reachable from BOS
+				}
 				var c int16
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
@@ -233,7 +237,7 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if totalCost > maximumCost {
 					totalCost = maximumCost
 				}
-				if j == 0 || int32(totalCost) < la.list[i][index].Cost {
+				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
 					la.list[i][index].Cost = int32(totalCost)
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
-- 
2.43.0


From d0523009c928e634c8941ffb234db99938a81abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 04/24] fix: sentence splitter waits for the rest of a
 character cut by a read

---
 filter/sentence_splitter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..3c749b7 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -59,6 +59,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			break // the rest of the character has not been read yet
+		}
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
@@ -98,6 +101,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// split
 		nn = false
 		for p < len(data) {
+			if !atEOF && !utf8.FullRune(data[p:]) {
+				return start, nil, nil // the rest of the character has not been read yet
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
-- 
2.43.0


From 1939852521c7202549f9b9d0a564572660977ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 05/24] fix: sentence splitter does not alter the data it will
 scan again

---
 filter/sentence_splitter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3c749b7..9965733 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -58,6 +58,10 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		head, nn           bool // nn indicates \n\n
 	)
 	head = true
+	if s.SkipWhiteSpace && !atEOF {
+		// data may have to be scanned again with more data, so it must not be compacted in place.
+		data = append([]byte(nil), data...)
+	}
 	for p := 0; p < len(data); {
 		if !atEOF && !utf8.FullRune(data[p:]) {
 			break // the rest of the character has not been read yet
@@ -129,9 +133,6 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-- 
2.43.0


From 5ff9bc9ffed3c3338f286fd524b5603ad400f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 06/24] fix: sentence splitter looks for followers beyond the
 data read so far

---
 filter/sentence_splitter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 9965733..d2a1f30 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -129,6 +129,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				break
 			}
 		}
+		if p >= len(data) && !atEOF {
+			return start, nil, nil // more delimiters or followers may come
+		}
 		return p, data[start:end], nil
 	}
 	if !atEOF {
-- 
2.43.0


From d3f5817c3ff31420b6d62ad9cc24bd0c639a79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 07/24] fix: sentence splitter never returns an empty sentence

---
 filter/sentence_splitter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index d2a1f30..cca4a0f 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -138,6 +138,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// Request more data
 		return start, nil, nil
 	}
+	if start == end {
+		return len(data), nil, nil // nothing but white space
+	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
 	return len(data), data[start:end], nil
 }
-- 
2.43.0


From 486f3dd77ae6913696d2890fd488d8e0f2522db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 08/24] fix: only two consecutive line feeds are a double line
 feed

A text whose lines are separated by single line feeds was cut at every
second line feed.
---
 filter/sentence_splitter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index cca4a0f..9b01a00 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -98,6 +98,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, data[start:end], nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
@@ -116,8 +118,11 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 						return p, data[start:end], nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
+				nn = false
 				if end != p {
 					for i := 0; i < size; i++ {
 						data[end+i] = data[p+i]
-- 
2.43.0


From fe3c5b3a4819aca38af9227226c466014e01ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 09/24] fix: features filter keeps patterns with Any apart from
 specific ones

Patterns with and without Any were merged into one path depending on the
order they were given in, so that {A,B},{Any,C} did not match A,C and
{Any,C},{A,B} matched X,B.
---
 filter/feature.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..7fe166c 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,13 +31,29 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
 	return -1
 }
 
+// match returns true if a path of patterns from the node to a leaf matches the features.
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
+			continue
+		}
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
+	}
+	return false
+}
+
 // FeaturesFilter represents a filter that filters a vector of features.
 type FeaturesFilter struct {
 	root filterNode
@@ -77,18 +93,7 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
-			continue
-		}
-		return false
-	}
-	return false
+	return f.root.match(fs)
 }
 
 // String implements string interface.
-- 
2.43.0


From fed14e8389e4e826db005ff585c6118c898f0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 10/24] fix: escape quotes and backslashes in the labels of the
 lattice graph

---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index ebb2118..1e4a159 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -313,6 +313,9 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+// dotEscaper escapes the characters that have a meaning in a quoted string of the dot format.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -368,7 +371,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From 3f172be66f119d5a9d406977a364a245266bde7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 11/24] fix: demo page no longer hangs when graphviz exits
 before reading its input

---
 cmd/server/demo.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..16918f4 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -87,8 +86,10 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	defer cancel()
 	var b bytes.Buffer
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	w0, err := cmd.StdinPipe() // writing fails if the process is gone, and does not block
+	if err != nil {
+		return nil, "", fmt.Errorf("pipe open error, %w", err)
+	}
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
 	if err := cmd.Start(); err != nil {
-- 
2.43.0


From d579d9e7b1d7cb95a964ebd3ccff6a2554ba16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 12/24] fix: error response of the tokenize endpoint is always
 valid JSON

---
 cmd/server/api.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..ad3397d 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -25,11 +25,17 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+// quote returns the error message as a JSON string.
+func quote(err error) []byte {
+	b, _ := json.Marshal(err.Error()) // never fails for a string
+	return b
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":%s}", quote(err)), http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +62,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":%s}", quote(err)), http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From 74e6dcda3cda5527e368ed36bb8a493679cd9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 13/24] fix: AnalyzeGraph returns the same tokens as Analyze

The index and byte position were not set, and OmitBosEos was ignored.
---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From a84300bca71c036ee369f4534e4025dfffaabf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 14/24] fix: tokenize -json prints the unigrams of unknown
 words in extended mode

---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0


From 9a687a77b110d5a48617ef35599ed9e8ddfbb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 15/24] fix: stop the HTTP server when the context is cancelled

Run returned while the listener stayed open and kept serving.
---
 cmd/server/cmd.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..d0e7302 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -28,6 +28,9 @@ var (
 	usageMessage = "%s [-http=:6060] [-userdict userdic_file] [-dict (ipa|uni)]"
 )
 
+// shutdownTimeout is the time to wait for requests in flight when the server is stopped.
+const shutdownTimeout = 5 * time.Second
+
 // options
 type option struct {
 	http    string
@@ -123,6 +126,12 @@ func command(ctx context.Context, opt *option) error {
 		return fmt.Errorf("server error, %w", err)
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
+	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := srv.Shutdown(sctx); err != nil {
+		srv.Close()
+	}
+	<-ch // wait until the listener has been closed
 
 	return nil
 }
-- 
2.43.0


From eacb03cde11eb2f6677544ccfed4868f6d9e8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 16/24] fix: japanese filter yields the surface of a word
 without a base form

Such a word, e.g. a verb of a user dictionary or of a dictionary without
contents, was lost.
---
 filter/ja/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/ja/filter.go b/filter/ja/filter.go
index 30f820d..5056c6d 100644
--- a/filter/ja/filter.go
+++ b/filter/ja/filter.go
@@ -117,8 +117,8 @@ func (f Filter) Yield(tokens []tokenizer.Token) []string {
 		if f.baserForm.Match(v.POS()) {
 			if b, ok := v.BaseForm(); ok {
 				ret = append(ret, b)
+				continue
 			}
-			continue
 		}
 		ret = append(ret, v.Surface)
 	}
-- 
2.43.0


From 0a5286b3f9ac2cf8ae1053829678e99ed9d0bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:20 +0000
Subject: [PATCH 17/24] fix: demo page does not wait for a descendant of
 graphviz that holds its pipes

---
 cmd/server/demo.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index 16918f4..cf8ae4f 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -84,23 +84,23 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	}
 	ctx, cancel := context.WithTimeout(ctx, cmdTimeout)
 	defer cancel()
-	var b bytes.Buffer
+	var graph, b bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&graph, sen, mode)
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	w0, err := cmd.StdinPipe() // writing fails if the process is gone, and does not block
-	if err != nil {
-		return nil, "", fmt.Errorf("pipe open error, %w", err)
-	}
+	cmd.Stdin = &graph
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
+	done := make(chan error, 1)
+	go func() {
+		done <- cmd.Run()
+	}()
+	select {
+	case err := <-done:
+		if err != nil {
+			return nil, "", fmt.Errorf("process done with error, %w", err)
+		}
+	case <-ctx.Done(): // do not wait for a descendant of the killed process that holds its pipes
+		return nil, "", fmt.Errorf("process done with error, %w", ctx.Err())
 	}
 	svg = b.String()
 	if pos := strings.Index(svg, "<svg"); pos > 0 {
-- 
2.43.0


From 76616d27e059179c9c175e54e73abe2023f0b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 18/24] fix: show a NUL by its symbol in the lattice graph

A NUL byte in a label ends the string for graphviz, which then rejects the graph.
---
 tokenizer/lattice/lattice.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 1e4a159..85ef9a3 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -314,7 +314,8 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 }
 
 // dotEscaper escapes the characters that have a meaning in a quoted string of the dot format.
-var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+// A NUL, which would end the string for graphviz, is shown by its symbol.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\x00", "\u2400")
 
 // Dot outputs a lattice in the graphviz dot format.
 //
-- 
2.43.0


From 7e73307267d288edb47b180e8ded60b8f5fb838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:36 +0000
Subject: [PATCH 19/24] fix: report a graph that could not be written

---
 cmd/lattice/cmd.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..c5d7ef3 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -102,6 +102,22 @@ func selectMode(mode string) tokenizer.TokenizeMode {
 	return tokenizer.Normal
 }
 
+// errWriter remembers the first error of the underlying writer.
+type errWriter struct {
+	io.Writer
+	err error
+}
+
+// Write writes until there is an error.
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.Writer.Write(p)
+	return n, w.err
+}
+
 func command(_ context.Context, opt *option) error {
 	d, err := selectDict(opt.dict)
 	if err != nil {
@@ -132,7 +148,11 @@ func command(_ context.Context, opt *option) error {
 	}
 
 	mode := selectMode(opt.mode)
-	tokens := t.AnalyzeGraph(out, opt.input, mode)
+	w := &errWriter{Writer: out}
+	tokens := t.AnalyzeGraph(w, opt.input, mode)
+	if w.err != nil {
+		return w.err
+	}
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
-- 
2.43.0


From 5f6b5da2691c834cc0ea016c162fb4d36de34d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:36 +0000
Subject: [PATCH 20/24] fix: leave no signal handler behind when the server has
 stopped

---
 cmd/server/cmd.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index d0e7302..6c477fc 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -144,14 +144,8 @@ func Run(ctx context.Context, args []string) error {
 		PrintDefaults(flag.ContinueOnError)
 		return fmt.Errorf("option parse error: %w", err)
 	}
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
-	go func() {
-		c := make(chan os.Signal, 1)
-		signal.Notify(c, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
-		<-c
-		cancel()
-	}()
+	ctx, stop := signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
+	defer stop()
 	return command(ctx, opt)
 }
 
-- 
2.43.0


From b790a250eb370410deb3f2c917034016877d350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 21/24] fix: demo page asks the tokenize endpoint when a mode
 is chosen

---
 cmd/server/asset/demo.html | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 7d7ce44..d987318 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -144,10 +144,7 @@
     }
 
     $('input[name="r"]:radio').change( function() {
-        var s = document.getElementById("inp").value;
-        var m = $('input[name="r"]').filter(':checked').val();
-        var o = {"sentence" : s, "mode" : m};
-        $.post('./a', JSON.stringify(o), cb, 'json');
+        tokenize();
     })
 </script>
 
-- 
2.43.0


From 4554ab724a8fd4760bcd70c4732dddfc6903c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 22/24] fix: demo page does not show an answer that has been
 overtaken

---
 cmd/server/asset/demo.html | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index d987318..19da28e 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -136,11 +136,18 @@
         }
     }
 
+    var latest = 0; // number of the latest request
+
     function tokenize() {
+        var n = ++latest;
         var s = document.getElementById("inp").value;
         var m = $('input[name="r"]').filter(':checked').val();
         var o = {"sentence" : s, "mode" : m};
-        $.post('./tokenize', JSON.stringify(o), cb, 'json');
+        $.post('./tokenize', JSON.stringify(o), function(data, status) {
+            if(n == latest){ // the answers may arrive in another order
+                cb(data, status);
+            }
+        }, 'json');
     }
 
     $('input[name="r"]:radio').change( function() {
-- 
2.43.0


From 37cfe30a0043107318d845f39f17e39856caf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 23/24] fix: demo page shows words as text, not as markup

---
 cmd/server/asset/demo.html | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 19da28e..2732121 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -125,12 +125,13 @@
                 reading = val.reading != "" ? val.reading : "*";
                 pronoun = val.pronunciation!= "" ? val.pronunciation : "*";
                 $("#morphs").append(
-                    "<tr>"+"<td>" + val.surface + "</td>" +
-                    "<td>" + pos + "</td>"+
-                    "<td>" + base + "</td>"+
-                    "<td>" + reading + "</td>"+
-                    "<td>" + pronoun + "</td>"+
-                    "</tr>"
+                    $("<tr>").append(
+                        $("<td>").text(val.surface),
+                        $("<td>").text(String(pos)),
+                        $("<td>").text(base),
+                        $("<td>").text(reading),
+                        $("<td>").text(pronoun)
+                    )
                 );
             });
         }
-- 
2.43.0


From f40cb0cdded64403e0544b01fa2b19f6c1cc9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 24/24] fix: demo page keeps the mode it is opened with

---
 cmd/server/asset/demo.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 2732121..16a1b52 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -93,8 +93,8 @@
               placeholder="Enter Japanese text below.">{{.Sentence}}</textarea>
       <div id="rbox">
         <div><label><input type="radio" name="r" value="Normal" checked>Normal</label></div>
-        <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "search"}}checked{{end}}>Search</label></div>
-        <div><label><input type="radio" name="r" value="Extended" {{if eq .RadioOpt "extended"}}checked{{end}}>Extended</label></div>
+        <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "Search"}}checked{{end}}>Search</label></div>
+        <div><label><input type="radio" name="r" value="Extended" {{if eq .RadioOpt "Extended"}}checked{{end}}>Extended</label></div>
       </div>
       <p><input class="btn" type="submit" name="lattice" value="Lattice"/></p>
     </div>
-- 
2.43.0

