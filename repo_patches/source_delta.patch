From 5c3a8644b55b74e068feb33be5d8a8a66a5edc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 01/44] fix: keep svcparse scan state per reader

The brace level and within-service flags were package globals, so an input
with an unbalanced or unfinished service changed how every later input in the
same process was parsed, and concurrent parses raced on them.
---
 svcdef/svcparse/scanner.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..7b23838 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -15,6 +15,12 @@ type RuneReader struct {
 	ContentLen int
 	RunePos    int
 	LineNo     int
+
+	// Position relative to the service definition. This belongs to the reader
+	// so that scanning one input never affects the scan of another.
+	withinBody bool
+	withinDef  bool
+	braceLev   int
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -85,12 +91,6 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
-var (
-	withinBody bool = false
-	withinDef  bool = false
-	braceLev   int  = 0
-)
-
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -102,10 +102,10 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	var ch rune
 	buf := make([]rune, 0)
 	setReturn := func() *ScanUnit {
-		rv.BraceLevel = braceLev
+		rv.BraceLevel = rr.braceLev
 		rv.LineNo = rr.LineNo
-		rv.InRpcBody = withinBody
-		rv.InRpcDefinition = withinDef
+		rv.InRpcBody = rr.withinBody
+		rv.InRpcDefinition = rr.withinDef
 		rv.Value = buf
 		return rv
 	}
@@ -216,22 +216,22 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
 				if string(buf) == "service" {
-					withinDef = true
+					rr.withinDef = true
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
 	case ch == '{':
-		braceLev += 1
-		if withinDef == true {
-			withinDef = false
-			withinBody = true
+		rr.braceLev += 1
+		if rr.withinDef == true {
+			rr.withinDef = false
+			rr.withinBody = true
 		}
 	case ch == '}':
-		braceLev -= 1
-		if withinBody == true && braceLev == 0 {
-			withinBody = false
+		rr.braceLev -= 1
+		if rr.withinBody == true && rr.braceLev == 0 {
+			rr.withinBody = false
 		}
 	}
 
-- 
2.43.0


From 15873a5695d954f818267807530a4f5feaefb7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/44] fix: end a block comment at the first '*/' after
 several '*'

The scanner dropped the rune following a '*' inside a block comment, so a
comment closed with '**/' swallowed the rpc definitions after it.
---
 svcdef/svcparse/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 7b23838..1673f67 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -153,6 +153,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// Not the end of the comment; the rune may itself be the
+					// '*' of a closing '*/', so look at it again
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From 73da4ff86432f570d8ff7f4215c27e85ede87b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 03/44] fix: do not panic on a comment at the end of the input

The lexer panicked when a service was followed by nothing but a comment, for
instance in a truncated file, and unreading the first unit indexed out of
range.
---
 svcdef/svcparse/lexer.go   | 6 ++++--
 svcdef/svcparse/scanner.go | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..e3afa5e 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// The comment is the last thing in the input
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 1673f67..c608a76 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -343,6 +343,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From ab96e54021290d537f19fec3466aabc0b2ba1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/44] fix: only take 'service' for the keyword where a
 service is defined

A package, message or field named 'service' ahead of the service definition
was taken for the definition, and the parse failed or missed its rpcs.
---
 svcdef/svcparse/scanner.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index c608a76..87d1a44 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -91,6 +91,34 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
+// followedByIdent reports whether the next rune which isn't whitespace or part
+// of a comment belongs to an identifier. It doesn't move the reader.
+func (self *RuneReader) followedByIdent() bool {
+	rest := self.Contents[self.RunePos:]
+	for len(rest) > 0 {
+		switch {
+		case unicode.IsSpace(rest[0]):
+			rest = rest[1:]
+		case len(rest) > 1 && rest[0] == '/' && rest[1] == '/':
+			for len(rest) > 0 && rest[0] != '\n' {
+				rest = rest[1:]
+			}
+		case len(rest) > 1 && rest[0] == '/' && rest[1] == '*':
+			rest = rest[2:]
+			for len(rest) > 1 && !(rest[0] == '*' && rest[1] == '/') {
+				rest = rest[1:]
+			}
+			if len(rest) < 2 {
+				return false
+			}
+			rest = rest[2:]
+		default:
+			return isIdent(rest[0])
+		}
+	}
+	return false
+}
+
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -218,7 +246,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				return setReturn(), err
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
-				if string(buf) == "service" {
+				// Anywhere else "service" is merely a name, such as in the
+				// name of a package or of a field
+				if string(buf) == "service" && rr.braceLev == 0 && rr.followedByIdent() {
 					rr.withinDef = true
 				}
 				break
@@ -293,13 +323,13 @@ func (self *SvcScanner) FastForward() error {
 	if self.InBody || self.InDefinition {
 		return nil
 	}
-	search_str := string("service")
 	for {
-		buf, err := self.ReadUnit()
+		_, err := self.ReadUnit()
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		// The unit which starts a definition is its "service" keyword
+		if self.InDefinition {
 			self.UnitPos -= 1
 			break
 		}
-- 
2.43.0


From 801c5a5e5095a62d4d6c03d97e12de86d2c9428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 05/44] fix: read single-quoted protobuf strings

Only double quotes delimited a string, so a single-quoted path failed to parse
and quotes or braces within single quotes derailed the scan.
---
 svcdef/svcparse/lexer.go   |  2 +-
 svcdef/svcparse/parser.go  | 28 +++++++++++++++++++++++++++-
 svcdef/svcparse/scanner.go |  5 +++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index e3afa5e..3e97ebe 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -37,7 +37,7 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 		return &TokenGroup{WHITESPACE, string(unit), scn.GetLineNumber()}
 	case isIdent(unit[0]):
 		return &TokenGroup{IDENT, string(unit), scn.GetLineNumber()}
-	case unit[0] == '"':
+	case unit[0] == '"' || unit[0] == '\'':
 		return &TokenGroup{STRING_LITERAL, string(unit), scn.GetLineNumber()}
 	case unit[0] == '(':
 		return &TokenGroup{OPEN_PAREN, string(unit), scn.GetLineNumber()}
diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dd2922a..ade9749 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -562,7 +562,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		noqoute, err := strconv.Unquote(val)
+		noqoute, err := unquote(val)
 		if err != nil {
 			return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
 		}
@@ -574,3 +574,29 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 
 	return fields, custom, nil
 }
+
+// unquote interprets a protobuf string literal, which may be enclosed in either
+// double or single quotes.
+func unquote(lit string) (string, error) {
+	if len(lit) < 2 || lit[0] != '\'' {
+		return strconv.Unquote(lit)
+	}
+	body := lit[1 : len(lit)-1]
+	goLit := []byte{'"'}
+	for i := 0; i < len(body); i++ {
+		switch {
+		case body[i] == '\\' && i+1 < len(body) && body[i+1] == '\'':
+			// Go only escapes the quote which encloses the literal
+			i++
+			goLit = append(goLit, '\'')
+		case body[i] == '\\' && i+1 < len(body):
+			goLit = append(goLit, body[i], body[i+1])
+			i++
+		case body[i] == '"':
+			goLit = append(goLit, '\\', '"')
+		default:
+			goLit = append(goLit, body[i])
+		}
+	}
+	return strconv.Unquote(string(append(goLit, '"')))
+}
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 87d1a44..3f5a579 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -194,8 +194,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			rr.UnreadRune()
 			return setReturn(), nil
 		}
-	case ch == '"':
+	case ch == '"' || ch == '\'':
 		// Handle strings
+		quote := ch
 		for {
 			ch, err = rr.ReadRune()
 			if err != nil {
@@ -209,7 +210,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				} else {
 					buf = append(buf, ch)
 				}
-			} else if ch == '"' {
+			} else if ch == quote {
 				// Closing quotation
 				buf = append(buf, ch)
 				return setReturn(), nil
-- 
2.43.0


From 7a70e21840b91602e31d6590565a95b459598cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 06/44] fix: ignore options other than the http annotation

An option such as 'deprecated' on an rpc made the parser skip to the next open
brace, attributing a later rpc's http annotation to the wrong rpc, and options
of the service or empty statements failed to parse.
---
 svcdef/svcparse/parser.go | 81 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index ade9749..40bc210 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/pkg/errors"
 )
@@ -55,11 +56,12 @@ func (pe parserErr) Error() string {
 }
 
 // fastForwardTill moves the lexer forward till a token with a certain value
-// has been found. If an illegal token or EOF is reached, returns an error
+// has been found. If an illegal token, EOF or the end of the statement is
+// reached, returns an error
 func fastForwardTill(lex *SvcLexer, delim string) error {
 	for {
 		tk, val := lex.GetTokenIgnoreWhitespace()
-		if tk == EOF || tk == ILLEGAL {
+		if tk == EOF || tk == ILLEGAL || (tk == SYMBOL && val == ";") {
 			return fmt.Errorf("in fastForwardTill found token of type '%v' and val '%v'", tk, val)
 		} else if val == delim {
 			return nil
@@ -67,6 +69,70 @@ func fastForwardTill(lex *SvcLexer, delim string) error {
 	}
 }
 
+// skipStatement moves the lexer past the semicolon ending the statement which
+// the lexer is within, ignoring those nested in a braced value. If an illegal
+// token or EOF is reached, returns an error.
+func skipStatement(lex *SvcLexer) error {
+	depth := 0
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case tk == EOF || tk == ILLEGAL:
+			return parserErr{
+				expected: "';' ending an option",
+				line:     lex.GetLineNumber(),
+				val:      tk.String(),
+			}
+		case tk == OPEN_BRACE:
+			depth++
+		case tk == CLOSE_BRACE:
+			depth--
+		case tk == SYMBOL && val == ";" && depth == 0:
+			return nil
+		}
+	}
+}
+
+// skipOtherOptions moves the lexer past any empty statements and options other
+// than the http annotation. The lexer ends up before the first token, other
+// than whitespace, of whatever comes next. A comment ahead of the thing which
+// comes next is not skipped.
+func skipOtherOptions(lex *SvcLexer) error {
+	for {
+		start := lex.GetPosition()
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case tk == SYMBOL && val == ";":
+			continue
+		case tk == IDENT && val == "option":
+			if isHTTPOption(lex) {
+				return lex.UnGetToPosition(start)
+			}
+			if err := skipStatement(lex); err != nil {
+				return err
+			}
+		case tk == EOF:
+			return nil
+		default:
+			return lex.UnGetToPosition(start)
+		}
+	}
+}
+
+// isHTTPOption reads the name of an option and reports whether it is that of
+// the http annotation.
+func isHTTPOption(lex *SvcLexer) bool {
+	name := ""
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		if tk == EOF || tk == ILLEGAL || val == "=" {
+			break
+		}
+		name += val
+	}
+	return strings.HasPrefix(name, "(google.api.http)") || strings.HasPrefix(name, "(.google.api.http)")
+}
+
 // Each of the following structs exists as a distillation of a corresponding
 // deftree struct, only including what's necessary for this parser. The reason
 // we define these structs instead of using the ones within deftree is because
@@ -219,6 +285,11 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 func ParseMethod(lex *SvcLexer) (*Method, error) {
 	var desc string
 
+	// Options of the service itself
+	if err := skipOtherOptions(lex); err != nil {
+		return nil, err
+	}
+
 	tk, val := lex.GetTokenIgnoreWhitespace()
 	for {
 		if tk == COMMENT {
@@ -362,6 +433,9 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
+	if err := skipOtherOptions(lex); err != nil {
+		return nil, err
+	}
 	bindings, err := ParseHttpBindings(lex)
 	if err != nil {
 		return nil, err
@@ -383,6 +457,9 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
+	if err := skipOtherOptions(lex); err != nil {
+		return nil, err
+	}
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != CLOSE_BRACE {
 		return nil, parserErr{
-- 
2.43.0


From 9fb00a3932cb63c753678ed155353e4971bedb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/44] fix: allow comments anywhere within an rpc definition

A comment between the tokens of a service, rpc or http field definition failed
the parse of an otherwise valid file.
---
 svcdef/svcparse/parser.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 40bc210..be13a39 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -244,7 +244,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 
 	toret := &Service{}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -254,7 +254,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 	}
 	toret.Name = val
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_BRACE {
 		return nil, parserErr{
 			expected: "'{'",
@@ -315,7 +315,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	toret := &Method{}
 	toret.Description = desc
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -328,7 +328,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// TODO Add some kind of lookup of the existing messages instead of
 	// creating a new message
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -337,11 +337,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -356,7 +356,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -370,7 +370,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT || val != "returns" {
 		return nil, parserErr{
 			expected: "'returns' keyword",
@@ -379,7 +379,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -388,11 +388,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -407,7 +407,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -421,7 +421,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if val == ";" {
 		// No http options defined
 		return nil, nil
@@ -621,7 +621,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		field.Kind = val
 		field.Name = val
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != SYMBOL || val != ":" {
 			return nil, nil, parserErr{
 				expected: "symbol ':'",
@@ -630,7 +630,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != STRING_LITERAL {
 			return nil, nil, parserErr{
 				expected: "string literal",
-- 
2.43.0


From 6cb468fa5e2b46b28c70908272fc6b39b24205bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 08/44] fix: collect oneofs for each definition and each file

The oneofs were kept in a package global which only the first .pb.go file of
the first call filled, so later files and later definitions in a process lost
their oneofs, or took those of another definition.
---
 svcdef/svcdef.go | 86 ++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..91e46fa 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -23,6 +23,7 @@ import (
 	"go/token"
 	"io"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/kr/pretty"
@@ -199,15 +200,20 @@ func (le LocationError) Location() string {
 	return le.Position
 }
 
-var (
-	oneofs = map[string][]*Field{}
-)
-
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
+	// The fields of each oneof, by the name of the interface they implement
+	oneofs := map[string][]*Field{}
+
+	paths := make([]string, 0, len(goFiles))
+	for path := range goFiles {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
 
-	for path, gofile := range goFiles {
+	for _, path := range paths {
+		gofile := goFiles[path]
 		fset := token.NewFileSet()
 		// log.Printf("ast path = %v, gofile=%v", path, gofile)
 		fileAst, err := parser.ParseFile(fset, "", gofile, parser.ParseComments)
@@ -271,42 +277,40 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 		}
 
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
-			for _, d := range fileAst.Decls {
-				switch decl := d.(type) {
-				case *ast.FuncDecl:
-					if _, ok := oneofExists[decl.Name.Name]; ok {
-						t := decl.Recv.List[0].Type.(*ast.StarExpr)
-						name := t.X.(*ast.Ident)
-						oneofTypes[name.Name] = decl.Name.Name
-					}
+		// Find oneof types
+		for _, d := range fileAst.Decls {
+			switch decl := d.(type) {
+			case *ast.FuncDecl:
+				if _, ok := oneofExists[decl.Name.Name]; ok {
+					t := decl.Recv.List[0].Type.(*ast.StarExpr)
+					name := t.X.(*ast.Ident)
+					oneofTypes[name.Name] = decl.Name.Name
 				}
 			}
+		}
 
-			// Process and group oneof types
-			for _, t := range typespecs {
-				switch t.Type.(type) {
-				case *ast.StructType:
-					// Non-exported structs do not represent types
-					if !t.Name.IsExported() {
-						break
-					}
-					// Skip all non-oneofs; will be processed later
-					iface, ok := oneofTypes[t.Name.Name]
-					if !ok {
-						break
-					}
-					nmsg, err := NewMessage(t)
-					if err != nil {
-						return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-					}
-					f := nmsg.Fields[0]
-					f.Type.Message = &Message{
-						Name: nmsg.Name,
-					}
-					oneofs[iface] = append(oneofs[iface], f)
+		// Process and group oneof types
+		for _, t := range typespecs {
+			switch t.Type.(type) {
+			case *ast.StructType:
+				// Non-exported structs do not represent types
+				if !t.Name.IsExported() {
+					break
+				}
+				// Skip all non-oneofs; will be processed later
+				iface, ok := oneofTypes[t.Name.Name]
+				if !ok {
+					break
 				}
+				nmsg, err := NewMessage(t)
+				if err != nil {
+					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
+				}
+				f := nmsg.Fields[0]
+				f.Type.Message = &Message{
+					Name: nmsg.Name,
+				}
+				oneofs[iface] = append(oneofs[iface], f)
 			}
 		}
 
@@ -337,6 +341,11 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			}
 		}
 	}
+	for _, m := range rv.Messages {
+		for _, f := range m.Fields {
+			f.Type.Oneof = oneofs[f.Type.Name]
+		}
+	}
 	resolveTypes(&rv)
 	err := consolidateHTTP(&rv, protoFiles)
 	if err != nil {
@@ -566,9 +575,6 @@ func NewField(f *ast.Field) (*Field, error) {
 		switch ex := e.(type) {
 		case *ast.Ident: // 函数名/变量名
 			rv.Type.Name += ex.Name
-			if oneof, ok := oneofs[ex.Name]; ok {
-				rv.Type.Oneof = oneof
-			}
 		case *ast.StarExpr: // 指针表达式
 			rv.Type.StarExpr = true
 			typeFollower(ex.X)
-- 
2.43.0


From b837493dd674bdd246a10001c15db467c3e38764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 09/44] fix: skip streaming rpcs instead of failing on them

Streaming is not supported and its rpcs are meant to be left out with a
warning, but the interface of their stream was taken for a service and crashed
the generator, and the unsupported error was not recognised once wrapped.
---
 svcdef/svcdef.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 91e46fa..246ab5b 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -242,6 +242,10 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				if strings.HasPrefix(t.Name.Name, "Unsafe") {
 					break
 				}
+				// Exclude {NAME}_{METHOD}Server interface of a streaming method
+				if isStream(t) {
+					break
+				}
 				// Each service will have two interfaces ("{SVCNAME}Server" and
 				// "{SVCNAME}Client") each containing the same information that we
 				// care about, but structured a bit differently. Additionally,
@@ -355,6 +359,17 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// isStream reports whether t is the interface of the stream of a streaming
+// method rather than that of a service.
+func isStream(t *ast.TypeSpec) bool {
+	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
+		if sel, ok := m.Type.(*ast.SelectorExpr); ok && strings.HasSuffix(sel.Sel.Name, "Stream") {
+			return true
+		}
+	}
+	return false
+}
+
 func NewEnum(e *ast.TypeSpec) (*Enum, error) {
 	return &Enum{
 		Name: e.Name.Name,
@@ -434,6 +449,10 @@ func NewService(s *ast.TypeSpec, info *DebugInfo) (*Service, error) {
 	}
 	asvc := s.Type.(*ast.InterfaceType)
 	for _, m := range asvc.Methods.List {
+		// An embedded interface, not a method
+		if len(m.Names) == 0 {
+			continue
+		}
 		log.Tracef("[svcdef/svcdef.go].NewService Method = %v.%v\n", s.Name.Name, m.Names[0].Name)
 		if !ast.IsExported(m.Names[0].Name) {
 			log.Tracef("Not Exported %v.%v", s.Name.Name, m.Names[0].Name)
@@ -441,7 +460,7 @@ func NewService(s *ast.TypeSpec, info *DebugInfo) (*Service, error) {
 		}
 		nmeth, err := NewServiceMethod(m, info)
 		if err != nil {
-			if err == ErrNotSupported {
+			if errors.Cause(err) == ErrNotSupported {
 				continue
 			}
 			return nil, errors.Wrapf(err, "cannot create service method %q of service %q", m.Names[0].Name, rv.Name)
@@ -487,7 +506,8 @@ func NewServiceMethod(m *ast.Field, info *DebugInfo) (*ServiceMethod, error) {
 	}
 
 	// 检查入参数量, grpc.CallOption 没在参数列表中, stream 目前不支持
-	if len(input) < 2 {
+	// A streaming method lacks the context, the response or both
+	if len(input) < 2 || len(output) < 2 {
 		msg := "the %s method is not standard gRPC method, not supported"
 		log.Warnf(msg, rv.Name)
 		return nil, errors.Wrapf(ErrNotSupported, msg, rv.Name)
-- 
2.43.0


From c50649106ea6c2393ef8cedee7a60b2dfc370c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/44] fix: report an http request type which is not in the
 given files

Binding an rpc to http whose request message is imported dereferenced nil.
---
 svcdef/consolidate_http.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..b455c85 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -107,8 +107,11 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 
 	// This logic has been broken out of the for loop below to flatten
 	// this function and avoid difficult to read nesting
-	createParams := func(meth *ServiceMethod, parsedbind *svcparse.HTTPBinding) {
+	createParams := func(meth *ServiceMethod, parsedbind *svcparse.HTTPBinding) error {
 		msg := meth.RequestType.Message
+		if msg == nil {
+			return fmt.Errorf("request type %q of service method %q is not defined in the provided files", meth.RequestType.Name, meth.Name)
+		}
 		bind := HTTPBinding{}
 		bind.Verb, bind.Path = getVerb(parsedbind)
 
@@ -121,6 +124,7 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 		}
 		bind.Params = params
 		meth.Bindings = append(meth.Bindings, &bind)
+		return nil
 	}
 
 	// Iterate through every HTTPBinding on every ServiceMethod, and create the
@@ -131,7 +135,9 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 			return fmt.Errorf("cannot not find service method named %q", hm.Name)
 		}
 		for _, hbind := range hm.HTTPBindings {
-			createParams(m, hbind)
+			if err := createParams(m, hbind); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 8b89984c02dd832ff9be50b8cee0bea734a56242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 11/44] fix: fail when the service definition cannot be parsed

Any error in the definition was reported as there being no service, and the
command succeeded without generating anything.
---
 cmd/baron/main.go                     | 5 ++++-
 internal/parsesvcname/parsesvcname.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 77afc40..a0bf898 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -209,10 +209,13 @@ func parseInput() (*config.Config, error) {
 	// Service Path
 	// 生成代码在临时目录, 获取服务名称
 	svcName, err := parsesvcname.FromPaths(cfg.GoPath, cfg.DefPaths)
-	if err != nil {
+	if errors.Cause(err) == parsesvcname.ErrNoService {
 		log.Warnf("No valid service is defined; exiting now: %v", err)
 		return nil, nil
 	}
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot parse service definition")
+	}
 
 	svcName = strings.ToLower(svcName)
 
diff --git a/internal/parsesvcname/parsesvcname.go b/internal/parsesvcname/parsesvcname.go
index 084f0f3..31de7a7 100644
--- a/internal/parsesvcname/parsesvcname.go
+++ b/internal/parsesvcname/parsesvcname.go
@@ -13,6 +13,9 @@ import (
 	"github.com/teamlint/baron/svcdef"
 )
 
+// ErrNoService is returned when the definition files don't define a service.
+var ErrNoService = errors.New("no service defined")
+
 // FromPaths accepts the paths of protobuf definition files and returns the
 // name of the service in that protobuf definition file.
 func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
@@ -67,7 +70,7 @@ func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
 	}
 
 	if sd.Service == nil {
-		return "", errors.New("no service defined")
+		return "", ErrNoService
 	}
 
 	return sd.Service.Name, nil
-- 
2.43.0


From ea535188a473ac021e973bf7d54de3d363b71a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 12/44] fix: decode optional 32-bit and enum parameters

The generated decoder of a proto3 optional int32, uint32, float or enum outside
of the body took the address of a conversion, or assigned a value to a pointer,
and didn't compile.
---
 gengokit/httptransport/httptransport.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..222ef89 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -505,8 +505,16 @@ func createDecodeTypeConversion(f Field) string {
 	}
 	// 如果字段是标量类型并且是指针类型
 	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
-	if f.IsBaseType && f.StarExpr {
-		return fmt.Sprintf("&"+fType, f.LocalName)
+	if f.StarExpr {
+		switch {
+		case f.IsEnum:
+			return fmt.Sprintf(fType+".Enum()", f.LocalName)
+		case f.IsBaseType && fType != "%s":
+			// The result of a conversion has no address
+			return fmt.Sprintf("proto.%s("+fType+")", strings.Title(f.GoType), f.LocalName)
+		case f.IsBaseType:
+			return fmt.Sprintf("&"+fType, f.LocalName)
+		}
 	}
 	return fmt.Sprintf(fType, f.LocalName)
 }
-- 
2.43.0


From 50066c51cdc78b29fb6122c713371d0af4bef7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 13/44] fix: escape path parameters and send the value of
 optional ones

The generated client put strings into the path as they were, so that a '?',
'#' or '%' changed the url, and formatted the pointer of an optional field.
---
 gengokit/httptransport/httptransport.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 222ef89..6d82226 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -256,23 +256,36 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //     }
 func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
+	isString := make(map[string]struct{})
+	isPtr := make(map[string]struct{})
 	for _, v := range b.Fields {
 		if v.IsEnum {
 			isEnum[v.CamelName] = struct{}{}
 		}
+		if v.GoType == "string" {
+			isString[v.CamelName] = struct{}{}
+		}
+		if v.StarExpr {
+			isPtr[v.CamelName] = struct{}{}
+		}
 	}
 
 	rv := []string{}
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name := RemoveBraces(part)
-			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", pkg.GoCamelCase(name))
-				rv = append(rv, convert)
-				continue
+			name := pkg.GoCamelCase(RemoveBraces(part))
+			value := "req." + name
+			// The value of an optional field rather than its pointer
+			if _, ok := isPtr[name]; ok {
+				value = "req.Get" + name + "()"
+			}
+			convert := fmt.Sprintf("fmt.Sprint(%s)", value)
+			if _, ok := isEnum[name]; ok {
+				convert = fmt.Sprintf("fmt.Sprintf(\"%%d\", %s)", value)
+			} else if _, ok := isString[name]; ok {
+				convert = fmt.Sprintf("url.PathEscape(%s)", convert)
 			}
-			convert := fmt.Sprintf("fmt.Sprint(req.%v)", pkg.GoCamelCase(name))
 			rv = append(rv, convert)
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
-- 
2.43.0


From 0360b5db2bdd2e53ceab2f6b35b084a7791c4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 14/44] fix: decode a repeated string given once in the query

Since the type of a repeated field lost its '[]' prefix the string cases of the
decoder were dead code: a single value was parsed as JSON and rejected.
---
 gengokit/httptransport/httptransport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 6d82226..0979976 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -449,7 +449,7 @@ if err != nil {
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
 {{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
 if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 	{{.LocalName}} = {{.LocalName}}StrArr
 	{{- else}}
 	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
@@ -460,7 +460,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- end}}
 } else {
 {{- end}}
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
 	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-- 
2.43.0


From e3576ddc090244312bce9870f8ad5f7e57e84fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 15/44] fix: decode enum, message and bytes members of a oneof
 in the query

Every member of a oneof was handled as a base type, so those of any other type
generated code which didn't compile.
---
 gengokit/httptransport/httptransport.go | 23 +++++------------------
 svcdef/resolvetypes.go                  |  4 ++++
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 0979976..9bfadfa 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -93,30 +93,14 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 				GoType:         oneofType.Type.Name,
 				LocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(oneofType.Name), pkg.GoCamelCase(meth.Name)),
 			}
-			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil {
+			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil && pkg.IsGoBaseType(option.GoType) {
 				option.IsBaseType = true
 			}
-			// else {
-			// 	option.GoType = "pb." + option.GoType
-			// }
-
 			// GoType 调整为基础类型,不包含 * 符号,* 号 通过 StarExpr 属性判断
-			// 修改为指针类型或切片类型
-			// if oneofType.Type.StarExpr {
-			// 	option.GoType = "*" + option.GoType
-			// if field.Type.ArrayType {
-			// 	option.GoType = "[]" + option.GoType
-			// }
-			// }
-
+			option.StarExpr = oneofType.Type.StarExpr
 			option.IsEnum = oneofType.Type.Enum != nil
 			option.ConvertFunc, option.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(option)
-			// option.TypeConversion = fmt.Sprintf("&pb.%s{%s: %s}", oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			typeConvStr := "&%s{%s: %s}"
-			// 如果是指针类型
-			if oneofType.Type.StarExpr {
-				typeConvStr = "%s{%s: %s}"
-			}
 			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			option.ZeroValue = getZeroValue(option)
 
@@ -533,6 +517,9 @@ func createDecodeTypeConversion(f Field) string {
 }
 
 func getZeroValue(f Field) string {
+	if f.IsEnum && !f.Repeated {
+		return "0"
+	}
 	if !f.IsBaseType || f.Repeated || f.StarExpr {
 		return "nil"
 	}
diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index 57f9ab3..114d087 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -28,6 +28,10 @@ func resolveTypes(sd *Svcdef) {
 	for _, m := range sd.Messages {
 		for _, f := range m.Fields {
 			setType(f.Type, tmap)
+			for _, o := range f.Type.Oneof {
+				// The Message of a oneof's field is the struct wrapping it
+				o.Type.Enum = tmap[o.Type.Name].Enum
+			}
 		}
 	}
 	if sd.Service != nil {
-- 
2.43.0


From cf647536789a12d3146a813ad459b0bd306d25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 16/44] fix: find path and body fields by their protobuf name

A field whose Go name isn't its camel-cased protobuf name, such as 'string',
was never found in the path or body.
---
 gengokit/httptransport/httptransport.go | 9 ++++++++-
 svcdef/consolidate_http.go              | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 9bfadfa..9098470 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -242,7 +242,11 @@ func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
 	isString := make(map[string]struct{})
 	isPtr := make(map[string]struct{})
+	goName := make(map[string]string)
 	for _, v := range b.Fields {
+		// Not always the camel-cased name, which protoc-gen-go changes where
+		// it collides with a method of the message
+		goName[v.QueryParamName] = v.CamelName
 		if v.IsEnum {
 			isEnum[v.CamelName] = struct{}{}
 		}
@@ -258,7 +262,10 @@ func (b *Binding) PathSections() []string {
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name := pkg.GoCamelCase(RemoveBraces(part))
+			name, ok := goName[RemoveBraces(part)]
+			if !ok {
+				name = pkg.GoCamelCase(RemoveBraces(part))
+			}
 			value := "req." + name
 			// The value of an optional field rather than its pointer
 			if _, ok := isPtr[name]; ok {
diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index b455c85..0057f2a 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -175,7 +175,8 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	for _, param := range pathParams {
 		// Have to CamelCase the data from the parser since it may be lowercase
 		// while the name from the Go file will be CamelCased
-		if pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name {
+		param = strings.Split(param, ".")[0]
+		if param == field.PBFieldName || pkg.GoCamelCase(param) == field.Name {
 			return "path"
 		}
 	}
@@ -183,7 +184,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 		if optField.Kind == "body" {
 			if optField.Value == "*" {
 				return "body"
-			} else if optField.Value == field.Name {
+			} else if optField.Value == field.Name || optField.Value == field.PBFieldName {
 				return "body"
 				// Have to CamelCase the fields from the protobuf file, as they may
 				// be lowercase while the name from the Go file will be CamelCased.
-- 
2.43.0


From 56e0e6ae903fa18d53b88f358a8f6bbf05466464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 17/44] fix: add new handler methods in the order of the
 definition

They were added in the random order of a map, so the same input generated
different files.
---
 gengokit/service/services.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..f67a458 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -97,8 +97,11 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		return h.buffer()
 	}
 
-	for k, v := range h.mMap {
-		log.WithField("Method", k).
+	for _, v := range h.service.Methods {
+		if h.mMap[v.Name] == nil {
+			continue
+		}
+		log.WithField("Method", v.Name).
 			Info("Generating handler from rpc definition")
 		ex.Methods = append(ex.Methods, v)
 	}
-- 
2.43.0


From 67ee10b9440c12f2b825b239b3e972f0f4333a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 18/44] fix: do not send unset message and optional enum fields
 as null in the query

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 2 ++
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 04ac98c..173bc81 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -647,12 +647,14 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 					}
 					{{- end}}
 				{{else if or (not $field.IsBaseType) $field.Repeated}}
+					{{if $field.StarExpr}}if req.{{$field.CamelName}} != nil { {{end}}
 					tmp, err = json.Marshal(req.{{$field.CamelName}})
 					if err != nil {
 						return errors.Wrap(err, "failed to marshal req.{{$field.CamelName}}")
 					}
 					strval = string(tmp)
 					values.Add("{{$field.QueryParamName}}", strval)
+					{{if $field.StarExpr}} } {{end}}
 				{{else}}
 					{{/*如果是指针类型标量*/ -}}
 					{{if $field.StarExpr}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e258ccf..9a674ec 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.964kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.074kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\x1b\x39\x76\xf0\xb3\xf4\x2b\x38\x85\x99\xb1\xd4\x9f\xba\x34\x5f\x80\x04\x9b\x1e\x74\x00\x4f\xdb\x73\xd9\x1d\xdb\xbd\x76\x7b\x06\x88\x61\x78\x29\x15\x25\x71\xbb\xaa\x58\x26\x59\x7d\x59\xa5\x5f\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\x9c\x43\xb2\x58\x52\x95\x2e\x9e\xd9\x60\x11\x64\x80\xc4\xea\x22\x79\x78\x78\x78\x78\xee\xe4\x4e\xa7\xec\x42\x65\x82\x2d\x45\x29\x34\xb7\x22\x63\xb3\x7b\x36\xe3\x5a\x95\x29\x7b\xf2\x82\x3d\x7f\x71\xc5\x9e\x3e\xf9\xe6\x2a\x1d\x4e\xa7\xec\xa5\xd0\x75\x59\xca\x72\x49\x1d\xd8\xad\xcc\x73\xa6\x6e\x84\xbe\xd5\xd2\x0a\x66\x57\xd2\xb0\x85\xcc\x05\x76\xfe\x4e\x68\x23\x55\x79\xc6\xd6\xeb\xd4\xfd\x7e\x78\x88\x1a\xd8\x13\x6e\x45\xdc\x0a\x7f\x3f\x3c\x0c\x87\x15\x9f\x5f\xf3\xa5\x80\x96\x4b\xfa\xf9\x9c\x17\xd8\x32\x9d\xb2\x2b\x3f\x07\x9b\xab\xd2\x72\x59\x1a\x56\x08\xbb\x52\x99\x61\x56\xb1\x82\x5f\x0b\x26\xcb\x4c\xde\xc8\xac\xe6\x39\x13\x65\x56\x29\x59\x5a\xc3\x16\x5a\x15\xcc\x08\x7d\x23\xe7\xc2\x4c\x00\x92\x16\xef\x6b\x61\x2c\xe3\x65\xc6\xb4\x30\x95\x2a\x8d\x60\xf6\xbe\x12\x08\x09\xba\xc2\x8a\x94\x11\x0d\x94\x09\xe3\x86\xdd\x8a\x3c\x87\x7f\x45\x39\x57\x99\xd0\x06\x00\x00\xbc\x4c\xb8\xbf\x17\x4a\xbb\x81\x08\x6d\x82\x1f\x38\x50\x6a\xc1\x54\xad\x99\xa9\xab\x4a\x69\xa0\xb4\xd5\xbc\x34\xf0\x1b\xa6\x93\x3c\x97\xbf\xe1\x56\xaa\x12\xa0\x2d\x94\x2e\xb8\x35\xe9\x70\x28\x0b\xec\x31\x1a\x0e\x92\xd9\xbd\x15\x26\x19\x0e\x12\x58\xbb\xb8\xb3\xf0\x13\xd1\x90\xe5\x72\xfa\x6b\xa3\x4a\xf8\xb0\x28\xf0\xbb\x54\xf4\xff\xa7\x52\xd5\x56\xe6\xf0\x47\x29\xec\x74\x65\x6d\xe5\x7f\xd7\x1a\x3f\x1b\xab\xe7\xaa\xbc\x71\x3f\x65\xb9\x34\xc9\x70\x38\x48\x96\xd2\xae\xea\x59\x3a\x57\xc5\x74\xa9\x4e\xaf\xa5\x9d\xc2\xff\x79\x5a\x24\xc3\x01\x2f\xef\xab\x19\x4b\x96\x4a\x2d\x73\x91\x2e\x55\xce\xcb\x65\xaa\xf4\x72\x5a\x69\x65\xd5\xac\x5e\x4c\x71\xfd\xd3\xeb\x52\xdd\x96\x53\xec\x9d\x0c\x07\x59\xad\x71\x91\x47\x0c\x6d\x86\x24\xc3\x81\x28\x2a\x7b\xcc\xbc\xae\x7f\x32\x1c\x2c\xa4\xc8\xb3\x82\x9b\xeb\x23\x46\x47\x63\x92\xe1\xc0\x58\x5d\xcf\xed\x11\xc3\xfd\x80\x64\x38\xb0\xb2\x10\xc6\xf2\xa2\x3a\x62\x78\x34\x26\x19\x0e\x6e\x35\xaf\x2a\xa1\xcd\x11\x00\x9a\x21\xdb\x5b\xaa\x65\x9e\xf3\x69\x51\xdf\x25\xed\x96\xea\x7a\x39\x15\x5a\x2b\x8d\x9c\xb6\x63\xa2\xc0\x79\xf8\xc5\xb3\xdf\x8e\x01\xf8\x03\x10\x59\xaf\x4f\x99\x5c\x30\xf1\x9e\xa5\x17\xaa\x5c\xc8\x65\x7a\x15\x4e\x42\xc2\xf3\x3c\x61\x49\xc9\xad\x49\xd8\xc3\x43\x1b\x37\xf8\x7a\x2a\x15\xfe\x9b\x2e\x81\xc3\x01\x94\x28\x33\xe8\x78\x00\xd4\xa5\xae\xe6\x1e\xea\x16\x9e\xd8\xd8\xdb\x32\x2d\x84\xe5\x19\xb7\x7c\x73\xd2\x83\xa7\x84\x5f\xcd\x89\xef\x39\x5f\xa1\x83\x47\x27\x9a\x0b\xce\xee\x11\x00\xdc\x51\x3f\x8a\xd8\xf0\xeb\x88\x29\x70\x60\x8c\xe3\x78\x38\x1c\xde\x70\x0d\xd2\xea\x1d\x3b\x67\x8b\xc2\xa6\xaf\x2a\x2d\x4b\x4b\x7f\xa3\x00\x4b\x2f\x54\x51\x71\x2d\xe8\x93\x93\x3e\xe9\x63\xab\x24\x7d\x69\x2d\x33\x7d\x2e\x6e\x5f\x81\x2c\xd6\xd4\x48\xd2\x2c\x7d\xae\xaa\x8b\x5c\x99\xe6\x6b\x7a\xa1\xaa\x7b\xfa\x83\x98\x37\xfd\x5e\xf3\x6a\x38\x98\x4e\x99\xdb\x4f\xcf\x86\x24\x95\xa1\x2b\x8a\xa4\xf4\x71\x89\xe3\x1a\x21\x93\x3e\x71\x3f\xe1\xb3\x13\x1f\xe9\x53\xf8\x17\x3e\xf8\x23\x9d\xbe\xc2\x1f\xf0\x29\x3a\xa6\xe9\x95\xff\x0d\x0d\xcd\xf1\x83\xde\xb2\x5c\x7e\xc7\xf3\x1a\xd7\x1d\xc9\x95\xf4\x4b\xf8\xfd\x8c\x9b\x6b\xa0\xde\xf4\xe4\xa0\xff\xd8\xd3\xa0\xd9\x0e\x1b\x00\xff\x4d\x51\x83\x7e\x53\x32\x4e\xea\x4d\x4f\x98\xb4\x8f\x0c\xab\x8d\x58\xd4\x39\xaa\xa9\x45\x5d\xce\x61\xe9\x86\xd9\x15\xb7\xac\x14\xa0\xa5\x14\x53\x15\xda\x06\x4c\xc1\xd8\x4a\xe8\x53\xaf\x06\x00\xe0\x8c\x1b\x69\x52\xf6\xa5\xd2\x4c\xdc\xf1\xa2\xca\xc5\x84\xdd\xab\x9a\x15\x72\xb9\xb2\xac\xe2\x06\x54\x64\x84\xb0\x55\x8c\x87\x89\x68\x9e\x4a\xab\xac\x9e\x0b\x03\xe0\x78\x89\x1c\x90\x7e\xcd\xcb\x2c\x07\x1c\x6f\xa5\x5d\x31\xc1\xe7\x2b\xa7\xe9\xd9\xc8\xcf\x3e\x66\xb7\x52\x8b\x8c\xd5\x15\x01\x35\x95\x98\xcb\x85\x9c\xb3\x8a\xdb\x55\xca\x46\xdf\x20\x7e\xd2\x00\xfc\x19\x9f\xe5\xf7\x8c\xb3\x42\x1a\x4b\x56\x02\xcb\x84\x91\xcb\x12\x86\xca\xf2\x46\x5d\x83\xba\x17\xec\x15\xd9\x08\xc1\xaa\x40\x14\x05\xc0\x69\x56\x40\x3c\x00\x20\x3c\x25\xd3\xf1\x70\x3a\x0d\xd4\x9d\xe7\x52\x94\xb6\x4d\x5d\xab\xd8\x5c\xe5\xb9\xc0\x71\xde\x40\xc9\xef\xc1\x8c\x21\x70\x22\x8b\xcc\x15\x59\xc2\x82\x00\xa0\x91\xe5\x32\x27\x53\x82\x68\x25\x81\xc2\x85\x40\x4a\x46\xf8\xca\xd2\x0a\xbd\xe0\x73\xd1\xb7\x13\x00\x2c\x4c\xd6\x6d\x24\xd5\x30\x19\x6b\x4b\x10\x38\x80\x17\x6e\x3d\x73\x55\xcc\x64\x89\x74\x2a\x1c\x8a\xd1\xc6\x4e\x9c\x29\x65\x6b\x5d\x32\x69\x61\xc5\x80\xe0\x9c\xe7\xb9\xd0\x60\x31\x71\x8f\x6c\x3a\xc4\xe5\x6c\x11\x74\x3d\x1c\xbc\x2e\xc3\xfa\x44\xb6\x5e\xa7\x7e\x04\x99\x80\x4e\x12\xac\xd7\x9a\x97\x4b\xc1\x3e\x96\xec\xec\x9c\x85\x3e\xcf\x68\xcb\x48\x2c\x7f\x2c\xdd\x18\x3f\x0b\x63\x2c\x2c\x35\xf5\x1f\x87\xeb\x35\x09\x2e\xb2\x2e\x03\x46\xfb\xa7\x00\x06\x66\xa3\x68\x11\x63\x16\x4d\x3a\x9a\xdb\x3b\xe6\xac\x34\x10\xbb\xf0\xef\x04\x18\xe6\x64\xbd\xfe\x4a\x41\x1f\xf6\xb1\x4c\x5f\x92\x09\x7a\x75\x5f\xf9\x05\x8e\xd9\x68\xa3\x07\x19\xa6\x51\x97\x09\x09\xb8\x31\x50\xcb\xdb\xad\xf8\x0d\x10\x15\x69\xc7\xca\x01\x19\x98\x7c\x3c\x1c\x80\x22\xd0\x9a\x7d\x74\xce\x4a\x99\x03\x84\x81\xdb\xaf\x52\xe6\x08\x64\x38\x78\x18\xfa\x6f\x1e\x7a\xba\x17\xa7\xf1\x04\x00\x0c\x1f\x02\x39\x81\x98\xcf\xe0\x98\xc5\x14\xc5\x83\xfc\xb1\x15\x48\xd1\x07\xe8\x7c\xca\x62\x2a\x7f\x6c\x45\x1f\xa1\x01\x56\xd7\xca\x0c\x10\x3d\x1a\x16\xb3\xc9\x78\x7b\xbb\x89\x66\xb8\x38\x00\xdb\xbd\x4b\xde\x31\x08\x27\x6a\x0d\xdb\x12\x5c\x84\xe8\x33\x91\xbd\xd9\x8e\x81\x16\xef\x61\x21\x0e\xc2\x16\xdd\xb6\x76\x7b\x38\x18\xdc\x84\xbd\x33\xe9\x06\x03\x21\x2a\xd0\x67\x7b\xd7\xb6\xb7\x0d\xf6\xcd\x7f\xbd\xa1\xed\x18\x3c\x0c\x89\xc8\xb4\x27\xf1\xde\x80\x72\x7c\x9c\xe7\x4f\xef\xe6\xa2\xb2\xa8\xa7\x0c\x89\xd8\x40\x29\xd4\x50\xe0\xb2\xb8\xb3\xd9\x1c\x56\xdc\x46\x94\x4d\x1d\x7e\x41\xfa\x4c\x66\x59\x2e\x6e\xb9\x26\x2f\xf0\xb5\xf1\x7e\x21\x38\x41\x55\x95\xdf\x83\x88\x01\xb1\x69\x01\x78\x11\x7a\xa3\x5e\x10\x37\x42\xdf\x87\x6d\x83\xf3\x02\x12\xc4\x78\xa9\x31\x9d\xb2\x17\x15\x68\x0d\x90\x9c\x93\x48\x70\xcd\x79\xc9\x66\x02\x75\x8d\xc8\x60\xd8\xec\x9e\x95\x40\x76\xab\xe0\xbb\xb8\x9b\xe7\x75\x26\x32\xf2\x02\x67\x02\x50\x20\xdd\x9c\xa5\x5b\xd4\x18\x35\x38\x4d\x58\xf2\xca\x72\x5b\x9b\x64\xc2\x92\x4b\x59\x2e\x93\x71\x38\xf7\x27\xd1\xc1\xef\x1b\xcf\x3a\xa8\x32\x69\xb0\x49\xd3\x94\x1c\x2e\x64\x1e\x59\xba\xcf\x67\xe7\xac\xe0\xd5\x1b\x6a\x7a\x4b\xe4\x5f\x3f\xc0\xae\x6f\x1e\x98\x2e\xc9\x37\x18\x24\x11\x1b\x25\x67\x6c\xfd\x30\x71\x43\x9d\x19\xf9\x30\x1c\x0e\x60\x37\xde\x01\x2a\xc8\xae\x08\x32\xa0\xb5\x26\x8e\x7b\x37\x61\xea\x1a\x9a\x3d\x62\x6f\xc4\xdd\xdb\xcf\xd9\x47\xea\x9a\x38\xb0\xe2\xa5\x9c\x8f\x1a\x0b\x6f\x31\x4a\x9e\x7a\x10\x61\x07\x1f\x7d\x62\x1e\xb1\x4c\x09\xc3\x4a\x65\x99\xb8\x93\xc6\x7e\xce\x8c\x10\xf1\xc6\x07\xde\x41\x93\x1e\x90\x1a\x8f\x1d\x3f\x67\x22\x17\x56\x8c\x3c\x06\xd8\xd6\x2c\x40\x96\xf3\x06\xfd\x40\xbe\xc3\x09\x25\x17\x08\xe2\xfc\x9c\xb5\x48\x46\xcb\x1b\x74\x8a\x52\x76\x1e\x61\x3e\xea\xec\x02\xb8\x23\xf2\x2d\x92\xd3\xb1\xfb\x96\xcf\x44\x2e\xb2\x86\x1b\x28\x84\xb2\x14\xd6\xf3\x2e\xf0\x7b\xa0\x1e\xb2\xf0\xed\x4a\x94\xa1\x55\x45\xec\xea\x80\x11\xd7\x4d\xe8\x94\xb9\x83\x50\x53\x67\x46\x71\x19\x4e\xc1\x1d\x39\x07\xa3\x46\xcb\x39\x9a\x59\x11\x97\xde\xae\xe4\x7c\x85\x43\x8d\x28\xbb\x50\x70\x9a\xdc\x8d\xf6\x76\x8c\xd2\x4e\x8f\x6f\xaf\x0a\x85\x2b\x31\xf0\x64\x5b\x0a\x77\x08\xe6\x61\xdf\xba\x3e\x58\x36\x6d\x21\x35\x71\xeb\x44\x8a\x6b\x31\x17\xf2\x86\x2c\x3e\x5c\xa2\x5a\xb4\xd6\x9d\xb2\x57\x42\x04\x30\x11\x14\x6c\xf0\x86\x68\x38\xf7\x80\x28\x70\x64\x26\x2c\x97\x39\x1a\x8d\xfe\x38\x61\x30\xc7\x19\xbb\x3c\x97\xf6\x3e\xdd\x25\x42\x5a\x6b\x8f\x25\xc9\xd1\x14\xfd\x3f\x39\xf3\xbf\x47\xce\xb4\x86\x4d\xba\x8d\xbc\x3e\xb1\x73\x78\x80\xe2\x50\xd7\xf3\xab\x97\x97\x17\x64\x61\x1d\xed\x7b\x82\x19\x17\x0d\x2f\xf8\xb5\x30\x8d\x31\xd0\xe8\x73\x7e\xc3\x65\xce\x67\xb9\x20\xb7\x61\xf9\xf2\xf2\x82\xf5\x38\x03\x69\x63\x20\x36\x90\x47\x0d\xa8\xc8\x3d\x51\x15\xb9\xb6\x69\x9a\xb6\x62\x31\x29\x0d\x22\xd3\x62\xdc\x37\x11\x6c\x97\x89\x3a\x1a\xd8\xf0\x37\x6f\xfb\x21\xc1\xf6\x76\xb5\x7e\x21\x16\x4a\x8b\x11\x60\xfb\xcc\xc5\x94\xae\x94\xb3\x3e\xc7\x13\x34\xc0\xdb\xf3\x9c\x83\xe1\x24\xca\x6c\xd4\xfa\x1c\xd6\x93\xa6\xe9\x18\x03\x1d\xeb\x35\xbb\x52\xdf\xaa\x5b\xa1\x59\x6b\x05\x18\xd9\x71\xa6\xe1\xa7\x80\x11\xe1\xb1\x06\x37\x69\x2f\xf7\xae\xd7\x1e\x66\x60\xb9\x33\xd6\x5e\x56\x08\xd1\x8c\x80\x07\x9b\x53\xd6\xc1\xa5\x20\x22\x06\x4f\x30\x52\x0e\xeb\x8f\x7a\x38\xeb\x18\x3b\x3c\x2d\x3b\x3b\x38\x5f\x07\x7a\xb4\x28\x91\xa6\x29\x7c\x04\xda\x75\xe8\xdc\x66\xc1\x9b\xae\x73\x30\xce\xbb\xf7\x3b\x18\xfa\xa4\xe5\x22\x38\x7f\x04\x77\x75\x8b\xc8\x8c\x6d\x50\xd9\xc5\x43\x22\x83\xde\xb9\x59\x2e\x50\x01\x92\x2a\xc2\xd1\xaa\x66\xb9\x87\xaf\xf4\x40\xb7\xd7\xb0\x93\x66\xaa\x31\x8b\xbd\x9c\x5d\xfe\x2f\xb8\x47\x3f\xad\x03\xfc\x0e\x80\x56\x2d\x17\x6a\x8b\x92\x74\xec\x80\x9b\x62\xa7\xea\x48\x4f\xb8\xfa\x40\x27\xd8\x51\x98\x58\x7e\x3f\x79\xa7\x53\xb6\xeb\x74\x30\x09\xe2\xb0\x1d\x23\x4e\x69\x80\xeb\xf1\x25\xec\x0f\xc6\x89\xe6\xaa\xbc\x11\x1a\x84\x29\x9e\x02\x12\xa1\xdb\x6c\xe6\xbd\x5d\x0c\xa0\xd5\x46\xe8\xd3\x4c\x15\x5c\x96\xbb\x3a\xa7\xec\x52\xcb\x82\x6b\x99\xdf\xfb\xf0\x56\x1c\x0b\x23\x26\xd9\xb5\x8e\xd1\xbb\x6d\xe6\x80\xb5\xbc\x14\xef\x37\xdc\xee\x4d\x6f\x3b\x04\x3e\xd0\xd1\x76\x63\x0e\x71\xb4\xc3\x4e\xbe\xdf\xb1\x4d\x24\x78\x0e\xda\xa6\x9d\x32\xaa\x73\x9f\x68\x84\xef\xd2\xb7\x51\xfb\xb7\xc0\xa7\x2a\x55\xa3\x19\xbb\xba\x55\xf9\xfd\x41\xfb\xb4\x73\x21\x5d\x1b\xd5\x15\x09\xd9\xb5\x53\xa6\xa2\x98\xc8\xc1\xc1\xa4\x56\x00\xaa\x6b\xb7\xbe\x16\x79\x25\xb4\x19\xd2\x02\x3a\x15\x69\xb7\x00\x2a\x32\xe6\xd3\x38\xe9\xb3\x27\xe3\xcd\x0e\x80\x2f\x88\xd1\xeb\x09\xbb\x69\x2c\xbe\x22\x98\xaa\x37\xad\x10\x0c\x66\xa3\x05\xbb\x16\xf7\xb8\xdd\x19\x18\x85\x33\x65\x57\x40\x63\x3f\x8b\xcb\xe3\xb2\xd1\xf5\xd8\xb9\x1f\xd0\x35\xcf\x59\x0e\xfb\xe5\xa0\x70\xe7\x74\x61\xb8\xf5\x82\x97\xaa\x94\x73\x9e\x7f\x2d\x78\x26\xf4\x2f\xc4\xbd\xf7\x4d\x60\x22\xa3\x5c\x10\xd8\x3a\x57\xcf\x83\x98\xcf\x85\x8f\x7d\x08\x69\x57\x42\xbb\x99\xa1\x1d\x48\x71\x1e\xd6\xfa\xbd\xb4\x2b\xcc\x43\x90\x34\x84\xb5\xbe\xf9\xec\xed\x78\x6f\xc7\x1e\xec\x46\xd7\xe3\x06\x82\xb3\xfa\xdd\xf6\xcd\xed\x1d\xea\xa8\x23\xec\x4a\x8a\x34\x1f\x6d\x57\x3e\x17\xb7\xd1\x68\x9a\x1e\xb3\x0e\x2e\x74\xc4\x66\x7c\x7e\x4d\xa5\x0d\xee\xcc\x50\x88\x1e\xd6\x5a\x0a\xf4\xcd\x52\xf6\x0d\x8a\x57\x17\xec\x77\xec\x2a\x67\x12\x7c\x36\xbf\x05\x2e\x96\x6d\x15\xcb\x24\xcf\x29\xe0\x9d\x73\x2b\x34\x9b\xe7\xca\x88\x09\x75\x6a\x60\x12\x83\xb6\xb0\x1b\x41\x33\xa9\xcf\x94\xbe\x5c\xa8\xb2\xdc\x61\x9c\x52\x27\x6f\x9c\x8e\x7a\x8c\x8c\xf8\xc8\x81\x85\xb0\x19\x6b\x1d\x44\x5f\xab\xeb\x25\x1e\x3f\x17\x72\x6d\x17\x59\x0c\xb6\xbd\x9a\xee\xb8\xec\xe0\x86\xeb\x2e\xd1\x13\x5c\x98\x6d\x27\x7f\xb0\xee\x36\x28\x23\xaf\x67\xcb\xb2\x74\x54\x43\xf6\x04\x42\x79\xcf\xd3\x2d\xe2\xe1\x21\xed\x8a\x00\x27\x93\x2d\x0f\x75\x97\x65\xd9\x98\x9e\x3d\x5a\x2b\x32\x3d\xf7\x48\x2f\x72\x83\x07\xaa\x6d\x9a\x06\x1a\x8c\xd0\xaf\x44\x30\xce\x4e\x6d\x7e\x05\x11\xe7\x0f\x50\xf0\x5d\xf6\x9a\xea\xec\xd4\x81\xda\xa2\xe9\x19\x63\x6c\xd7\x36\x4d\x9a\x79\x07\x0f\x5e\xd8\xc2\x09\x00\x1a\x30\x77\xa2\x7e\xbc\xf9\xb2\x43\x2f\x7a\xfb\x65\xb7\x5e\xdc\xad\xe9\x0e\x35\x5f\x9c\x0e\xea\xd1\x8b\x24\x14\x76\xdb\x2f\xfd\x7a\x91\x8c\x11\x40\xe6\x40\xc5\x08\x5d\x83\x11\x03\xea\xfa\x28\xd5\x58\xe5\xf7\x5d\xba\x31\xde\xb6\x1f\x6f\xce\xf4\x5b\x9d\xde\x9a\xd9\x69\x75\x1e\x68\x4f\xee\xb5\x65\x76\x5a\x9d\xad\x5d\xdb\xb5\x8e\x6e\x63\xa6\x2b\xd9\xb3\xdb\xea\x3c\x22\xbd\xb3\xdb\xea\x74\x58\xa0\x92\x35\x57\x2a\x36\x64\x88\xe6\x5d\x9a\x20\x22\x39\x2d\x79\x07\x94\xd1\xb5\xb8\x37\xec\xcd\x5b\x1f\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xb1\x93\x7d\x46\x14\xea\x86\x8a\x4b\xdd\x4c\x3e\x1c\xf8\x60\xe0\x75\x63\x5a\x21\x7a\x6b\x17\x23\xbb\xf1\x81\xc0\xb9\xbd\x4b\xc9\xf0\xb8\x1e\xa7\x2e\xe8\x39\xfe\x9c\xf9\x80\xe0\x80\x00\x87\xa8\x08\xfe\x49\x86\x4c\x08\x82\x81\x10\x05\x98\xd4\x35\xb6\xda\x4e\x8a\x8c\x9d\x37\x56\xe0\xcf\x95\x2c\x47\x27\x45\x36\x69\x3e\x5d\xc2\x18\x82\x9a\xa6\xa9\x8b\x11\x36\xfe\x21\x58\x35\x2e\xb2\x46\x3b\x79\xa8\x7d\xf3\xf5\xd5\xd5\xe5\x87\xc4\xcd\x30\x69\x4f\x54\x2e\x91\xbd\xd8\x39\x4b\x78\x55\xe5\x72\x8e\x65\x2a\x58\xf9\xf7\x39\x9b\xaf\xb8\x36\xc2\x9e\xd7\x76\x71\xfa\xb3\x24\x84\xdb\x60\x56\x17\x3a\x68\x0c\x23\xb6\x72\x5f\xf0\xcc\xee\x0f\xc3\x01\x30\x55\xb2\x4a\x8b\x4c\x2c\x64\x29\x32\xac\xb0\x30\x51\xec\x2d\x9a\x66\x6f\xf0\xad\x5d\xe0\xd3\x0e\xbe\xc5\xa5\x1f\xde\x96\x91\x0b\x96\x22\x7c\x34\xfb\x5b\xd1\xa9\x8e\x80\x5c\x3f\x74\xdc\xff\xae\x66\x17\x91\xa3\x39\xc0\xae\x35\xad\x80\x5c\xf7\xa0\xa7\x20\x16\x48\xdc\xe8\x91\x88\xfe\xe8\x1f\xf2\x78\x61\x85\x1e\x6d\xb6\xd8\x8b\x66\x6b\x47\xd1\x36\x8f\x11\xd0\xf6\x2a\x0f\x0a\x07\xba\x28\x11\x86\xfe\x0a\x0c\xf5\xd7\x77\x60\x4e\xbd\x54\x35\xe0\x30\x1e\x46\x16\x85\xcb\x66\x80\x6e\xe8\x21\x73\xe8\x3a\x93\x65\x26\xcb\x25\x5a\x85\x34\x2c\xfd\x82\x3e\xb9\x58\x77\xe1\xc7\x61\xd0\xda\x75\x4f\xbf\x13\x7a\xc6\xfe\x86\x5d\xa9\xd7\x55\x25\xf4\xc3\x43\x32\x4e\x2f\xb9\x5d\xb5\xfa\xc0\x87\x2b\x51\x54\x39\x96\x01\x27\x63\xcf\x05\xa3\x9e\x7a\xb0\x11\x45\xcf\xe3\x68\xa3\xc3\xa8\x23\xe4\xe8\xec\x3a\x58\x5e\x34\x25\x66\x5b\xda\xf6\x9f\xb3\x10\xa1\xe3\x57\x94\x34\x6b\x19\x7f\x9d\x81\xc7\x01\xca\x88\x8d\x4a\x44\xf7\xd3\x09\x8d\xc2\x17\x98\x44\x7c\x42\xd9\x39\x0a\x45\x22\xff\xf8\x3c\x9b\x9f\xf1\x7b\x68\xd7\x13\xf0\x5a\x32\xb1\xe0\x75\x6e\x41\xdb\x11\x83\x00\x30\x0c\x4b\xaa\x05\xdb\x94\x05\x13\xc6\xd9\x4c\x65\xe8\xb5\xc0\xdf\x64\xf6\x83\xfb\x98\xe0\x3c\x49\xf0\x38\x6f\xb0\x1e\x6d\x3a\xa5\xf9\x53\xc4\x6e\x34\x26\xbf\x86\x33\x83\xb9\x6f\x06\xc8\x02\xa8\x3f\xff\xec\xb3\x94\x7d\xb3\x88\xf0\x8d\xe2\xa9\x74\x6e\x84\xc6\xd2\x6a\xe8\x51\x69\x75\x23\xc1\x25\x5e\xd1\x89\xa2\xbc\xdb\x4c\x10\xb6\x94\x9e\x84\x7e\x8d\x4d\x16\x83\xc6\xba\xad\x06\x3a\xac\x22\x7d\xc6\xb5\x59\x71\x2c\x09\xf3\xf8\x17\xf4\x09\x38\xd2\xd4\xf3\xb9\x10\x99\x21\x1f\xec\xe7\xaf\x5e\x3c\x77\x15\xda\x99\x2f\xa7\x0e\x39\x3e\xc4\xdd\xa3\x53\x1b\x91\xf5\x2f\x8b\xd2\xff\x17\xb0\x5d\x13\xef\x1a\x86\x95\x35\x8d\x2d\x68\x4c\x96\xc6\x0a\x9e\x79\x9a\x91\x90\x8c\x25\x44\x97\x21\x12\x2a\x49\x26\xec\x96\xa4\x60\x9b\x0d\xd0\x00\x81\x5d\x9d\xb0\x77\x70\xfc\x62\x92\x90\xf8\xf9\x9e\xaa\x0d\xd7\xb8\x8b\x67\x00\xcc\x6f\xe8\x03\xc5\x3b\x8b\x86\x80\xa4\x68\xa1\xcb\xa8\x4d\xdb\x46\xcf\x4a\x62\x9e\x2f\x70\x4a\x37\xf4\x29\x85\x59\x03\x20\x3f\x0e\xc8\x3d\x1a\x7f\x1e\x77\x3b\x8f\x74\x2e\x32\xe3\x79\x00\xe7\x03\x05\x83\xdb\x94\xd8\x66\x34\x06\x31\x38\x4a\x9c\x20\x3c\x05\xe9\x97\x4c\x62\x95\x47\x0b\x58\x79\x26\x8b\xf1\x6f\x8b\x07\xcf\x87\xcd\x3a\x30\xa0\xd3\x98\x1c\x1e\x86\xeb\x69\x46\x54\xb9\xb3\x89\xcb\xf5\xa4\xa3\x67\xfa\x15\xb4\x8c\x43\xa4\x63\x80\x47\xe3\x8c\x4a\x56\x53\x62\x87\x6f\xc0\x74\x2c\x79\x1e\x29\x09\xc4\xdd\xcc\x77\x60\x1d\xb1\x59\x83\x38\x02\x3f\x67\x66\x1e\x35\x3b\xf7\xf1\x36\x45\xa6\x70\x18\x43\xc7\x71\xf8\x38\x02\x6a\x8f\x41\xde\x34\x7c\x47\xd2\x4f\x8f\x66\xf5\x82\xbd\x79\x3b\xbb\xb7\x62\xec\x78\x7d\x4d\x7e\xfc\x2d\x8b\x59\x28\x44\xc7\x3d\x9f\xbd\x2e\xdd\xce\x02\x84\x09\xfb\xf4\x76\xfc\xf9\x66\xf4\x9c\xac\x14\x23\x7f\x03\x38\xff\xec\xff\xff\xe5\x5f\x10\x0b\xe5\xa2\x84\x31\x63\xf6\x57\xd4\x46\xfc\x50\x2f\xd8\x39\x9b\xd5\x8b\x37\x67\xf0\xf1\x6d\xbb\x7a\x69\x51\x58\x62\xdc\xc5\x28\x09\xb1\x46\x64\xa1\x47\x9f\x98\x47\x67\x6c\xce\xcb\x52\x59\x56\x81\xb9\xc3\x4a\x55\x9e\xa2\x8c\xf3\x86\x3c\x74\x4c\x26\x00\x7c\xdc\x0a\x46\xb9\xaa\xe0\xe7\xe2\x76\x74\x4b\xe0\x91\x46\x28\x43\xe3\xb5\x47\xc9\x1d\xec\xc5\xc8\xfe\x64\xbf\x82\x59\xce\x9c\x00\xfd\x95\x13\xe7\xb0\x8b\xae\x17\xb7\xd2\x2c\xa4\x13\xe7\x9e\x0b\x51\x50\x45\x9b\xdb\xb8\x19\x86\x49\xbc\xe7\xe1\x2f\xbb\x1c\x52\xcc\xed\xca\x2d\xa2\x49\x03\xaa\x24\x34\x07\xa6\x91\x48\x18\x6f\xf1\xb2\x97\xb1\x38\xd5\x1f\x4c\x72\xcf\x23\xa3\x55\x03\x74\xcc\x62\x6e\x63\xed\xa2\xb9\x55\xda\xcc\xd0\x33\xba\x39\x56\x64\xca\xe1\x9f\x2d\x10\x0e\xa9\xe1\xce\x04\xc9\x5e\x9b\x24\x0a\x52\xed\x31\x4a\x42\x50\x62\xa7\xf6\xdf\x74\x72\x11\xfb\xee\xd4\x0a\x82\xa4\xeb\x3e\x30\x06\x84\xdf\xa9\xd3\x35\xb1\xff\xda\x18\x36\x1a\xfc\xd3\x0d\x97\x17\x4b\xd1\x90\x57\xae\xae\x2e\xfd\x57\x84\x0c\x1c\xbc\x2f\x72\x3f\x88\x42\x14\x3b\x97\xd5\xe9\xf3\xb2\x13\xa7\x60\xb0\x4b\xbf\xbf\x3b\xc8\xc4\x02\xdc\x86\x14\xa4\x76\x8a\x05\xf7\xa3\xb1\xf3\xee\xc0\x17\x6e\xdc\xdf\x8d\xb5\x46\xbe\x30\x9a\x85\x28\x35\x9c\x40\x71\x15\xfc\x2f\x05\xcf\x1e\xe7\xf9\x88\x80\x1f\x56\xe5\xe8\xcb\xfa\x17\xa0\xf0\x26\x2c\x71\x92\x40\x83\xb2\xf5\x06\x0f\xac\xcc\x93\x33\xf1\xf5\x1d\x6d\x41\xf4\x19\x01\xaf\xbd\x50\x03\x57\xe3\xec\x9c\x85\x6b\x2c\x8d\xb8\x73\x76\x1e\xb9\x9d\x8f\xf3\x5c\xdd\x5e\x72\x6d\x25\xcf\xcf\x18\x63\x56\xd7\xce\x28\x7c\x22\xcd\x9c\xeb\xec\x75\x89\xb7\x6e\xce\x9a\x16\x5f\xfe\x01\xeb\x3a\x67\xf1\x84\x5b\x22\x55\x8b\xf7\xdb\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xea\xd0\x68\x11\x33\x1c\xd8\x75\x07\x59\x63\x51\x7a\xac\xcc\x25\x82\x0c\x22\x85\xf8\x05\xcf\x5a\x06\xf6\x00\x10\x68\xd0\x0a\xde\x3a\x78\x94\x97\x5c\xf3\xc2\x78\x77\xe5\x3b\xae\xcd\x48\xc3\x1e\xbe\x63\xe7\xac\x69\x87\xde\xef\x6b\xa1\xef\x9b\xee\x3a\x7d\xfd\xf2\xdb\xf4\x97\xf0\x71\xe4\x07\x44\x5d\x86\xb1\x0f\x43\xd5\x63\x20\x2c\x3c\xd7\xe2\x0d\x0c\xe3\x83\xdf\x72\xc1\x4a\xdf\x2d\xfd\x56\x91\x61\xcd\x12\x5c\x24\xf5\x19\xac\xd7\xae\xf9\x2b\x51\xe2\xa4\x61\x37\xc1\xbb\xe9\x0e\xef\xee\x46\xe1\x45\x29\xd4\x62\x0b\x0f\xf1\x7e\x1b\x0f\x5c\xd6\x8f\x41\x24\x70\xc2\xa7\x18\x96\xf2\xa9\x6e\xef\x31\x9e\x6e\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\x49\xf2\xd1\x78\xef\x20\xe8\x75\x6e\xc8\x56\xdf\xf0\x06\xc8\x37\xd2\x47\x24\x30\x3b\x10\xec\x92\x7d\x9d\xb6\x75\x5f\x4e\x33\x98\x48\x7d\x82\xe2\xd9\x96\x98\xd8\x14\x12\x41\x16\xbc\x36\xe2\x12\xc6\x81\xbc\x34\x67\xed\x86\xa7\x65\x5d\x3c\xaf\x8b\x99\xd0\xd0\xe2\x1b\x9e\x16\xd2\xbe\x2e\x2b\x55\xd5\xe0\x12\x67\x41\xac\x3c\x0c\x5b\xf2\x34\x92\x29\xde\x1d\x68\x72\xad\x88\x6a\xfa\x4c\x18\xc3\x97\x62\xbc\xab\xec\xc1\xb3\xc1\xbb\x89\x93\x56\xc1\x9c\x44\x4b\x2a\xea\x15\xe7\x60\x9b\x0b\x43\xce\x18\xe8\x8a\xa1\xf4\x14\x83\x6c\x6a\xa1\xbe\x64\x6c\x63\xbb\xeb\xc8\x9c\xd8\x99\x7e\x45\x25\xb0\x95\x7a\x5d\x71\xc3\x56\x3c\xa3\xb1\x7d\xc9\x56\x4c\xf1\x65\x4c\xe1\x15\x16\x59\x46\x77\x74\xa3\xbb\xbf\xe0\x09\x22\x14\x77\x61\x36\xf5\x4a\x3f\xe4\x78\x81\x99\x97\xba\x9a\x6f\x65\x82\x5b\xc9\x5c\x02\xd2\xce\xe8\xee\xcc\xe5\xee\x4b\xe5\x7a\x0a\x45\x9e\xca\xce\x21\x1b\xf8\x63\x32\x77\x1b\x06\x08\x2f\x20\x77\x5d\x8a\xe6\x8e\xd5\x7c\x05\x7b\x92\x62\x0b\xcf\x8d\x82\x2d\x70\x67\x98\xb4\x42\xad\xf3\xe1\xee\xd9\xbd\xa6\x39\xad\x75\x9e\x4c\x9c\x10\xbf\xe4\x76\x35\xde\x37\x30\xec\x4a\x32\x61\x09\xf0\x1c\x08\x91\x64\xfc\xc1\xb9\x67\x00\xf1\xe1\xb9\xe7\x68\x74\x13\x62\xed\x48\x3d\x97\x64\xec\x91\xf4\x62\xb9\xbc\xc1\xbb\x10\xd6\x51\xad\x50\x16\xe3\x0b\xb2\x34\x96\x97\x73\x91\xb2\xef\x05\x13\x77\x15\x5d\x19\xa3\x6f\x74\x8d\xac\x10\x64\x3e\x36\x93\x64\xd2\xcc\x15\x5e\x9e\x30\xf7\xc6\x8a\x62\x02\xcc\x35\x9d\xb2\x5c\x5e\x8b\x3c\xa4\xaf\x31\x0a\x92\xac\x94\xb1\x67\x48\xbb\x26\x3f\xdd\xac\x60\x14\xa6\xf2\xd5\xc6\xbd\x91\xdb\xe3\x33\xd3\x72\xc1\x3e\xf2\x2c\xf7\x35\x37\x97\x5a\x2c\xe4\x5d\x98\x71\xc2\x12\xbc\xb3\x4a\xb6\x67\xc0\xe3\x9c\x3e\x9f\x4d\xa7\x09\xfb\x7f\x81\x12\x28\xac\xea\x20\x05\x6b\x9d\x83\xf1\x69\x44\x80\x76\x70\x8d\x17\xd8\x0a\xf5\xd0\x5d\xe5\x05\x2b\xa7\xc3\xe3\x70\xf9\x55\xaa\x45\x4e\x9e\x2b\xda\xc8\x28\xbc\x4d\xd5\xf7\xc4\x03\x18\x0c\x02\x40\xb7\x4a\x5f\x4f\x18\x85\xcc\x99\xd3\xf4\xe0\xf8\xb1\x7b\x55\x6b\x52\x23\xd4\x2a\x81\x84\xc9\x38\x8e\x1c\x1e\x19\x9f\x65\x72\xb1\xe5\xfc\x38\xa4\xa1\x95\x12\xff\x91\xa3\x24\xcb\x4c\xdc\x6d\x8f\xf8\xcc\x8f\x71\xd9\xfd\x4d\xaf\x62\x57\x72\x1f\x66\x22\x0b\x6f\xc7\xb8\x8e\xeb\xbd\x51\x86\xdf\xe5\xec\x7b\xc3\xc6\xce\x82\x1c\xcc\x55\x75\xff\xfa\xe5\xb7\xa3\x7a\xc2\xe2\xfe\x5f\x70\x23\x40\x7c\x3c\x3c\x24\xde\x10\x8d\xe2\xb9\x7b\x02\xbf\x1b\x31\xe2\x56\x2c\xb9\x1d\x03\xde\xcc\xee\x0f\x36\x13\xfc\xde\xb6\x8d\xe2\xc0\xdd\xe1\xe1\xdd\x99\xfe\x9d\xfb\x1e\x32\xfe\x3f\xf9\xce\xf7\x05\xd2\x5d\x25\x41\xdf\xd6\x4e\x36\xad\xcd\xae\x70\x78\x53\x61\x80\x92\xc7\xef\xe3\x8c\x1b\xc1\x4e\xe0\x0c\xbf\x7e\xf9\xed\x04\x4d\x7d\xe6\x73\x96\xfe\x33\x9c\xdf\x12\xec\x82\xb3\x73\x76\x02\x03\xe8\x4f\xd4\x17\xce\x3d\x68\xaa\x9c\xa1\xc5\x19\x2a\x17\xf6\xce\xa7\x46\x5f\x81\x7d\x3b\xc7\x3a\xf8\x5a\xbb\x50\x0d\x9a\x0a\xee\xe0\x5a\xc5\xaa\x3a\xcf\xe9\xd2\x19\xe9\x39\x91\x51\x92\x52\xd5\xa0\xba\xbd\xf9\xea\xd4\x12\xc5\xc9\x49\xed\x15\xde\x84\x8d\x1d\x50\xb0\x15\x5c\xb8\x23\x65\xec\xb9\xb2\xee\x0e\x2f\x80\x04\x58\x28\x29\x56\xfc\x46\x30\xff\x36\xc7\x6e\x93\x04\xe7\x99\x61\xb6\xca\x5d\x63\xc3\x1b\x3b\x20\xf9\x3d\x6a\xb7\x52\x0b\x17\x1f\xe7\xbe\xa0\x89\x04\xbf\x5d\x89\xfb\x26\x0a\x1f\x2a\xec\xa3\x4b\x76\x42\x07\x85\xeb\x52\xcb\x6d\xda\x51\x3a\x39\xba\x4e\xd2\xaf\x0f\xe2\x88\x4f\x47\x27\x97\x71\xdb\x71\x09\xf3\x00\xeb\xf0\x27\x4b\x28\x07\x8b\xc7\x45\x7e\xe3\x3c\xf2\x46\xde\x17\x83\x86\x68\xff\x82\x02\xe8\x29\x8f\xd9\x2b\xb0\x37\x43\x52\x9d\xc2\x66\x67\x44\x6a\xd3\xbf\x72\xe1\x28\xb2\xc6\x36\x43\x52\x3e\x4a\xe3\xa6\x89\x0b\x4b\xe2\x8a\xd2\xcd\x90\x54\x14\x7a\x25\x33\xcf\x65\x49\x42\xcb\x0a\x6f\x67\x94\xaa\x3c\xfd\xb3\xcf\x3e\x8b\xd3\x45\x13\x76\xeb\x72\x22\xe8\x4f\x55\x5a\x58\x42\x13\x06\x94\x08\x8b\x7c\x2b\x3c\x40\xd6\x8a\xa2\xc2\xd3\x47\xab\x88\xcf\x9f\x0b\x60\xb3\x82\x5c\x98\x06\x47\x8f\xc4\xde\x90\x99\x2f\x0f\xe9\x08\x99\x75\x92\x7d\x77\xc4\x8c\xfa\x1c\x1f\x32\x3b\x26\x02\x76\x8e\x0f\x5a\x3c\x7d\xf1\x65\x6f\x10\xec\xb9\xb8\x8d\x62\xe3\x28\x71\x30\x58\x83\xaf\x55\xc4\x51\xaf\x03\x03\x6a\x1d\xf1\xb4\x00\x34\x19\x47\xf5\x14\x3a\xca\x45\x00\xe0\x28\xce\xf3\xe2\x17\xfb\x63\x76\xad\x4c\xc4\x78\xc2\x92\x88\x67\xce\xd8\xa3\x4f\xb2\x47\xe8\x06\x34\x73\x84\xb9\x29\xe4\x68\xaa\x7d\xdc\x3c\x3c\x3a\xae\xd7\x1b\xd6\xeb\x8b\xea\x45\xa4\xdd\x1b\xd3\x33\x55\x47\x50\x6f\x8b\x42\x31\x51\x36\xaa\x4d\x3e\x6d\x6a\xa0\x07\x1b\x45\xd0\x91\x00\xda\x2c\xf4\x3a\x20\x7a\xbe\x3f\x76\x4e\x06\x41\x2b\x02\x74\x5c\xf4\x7c\xab\x44\x6c\x18\xbc\x5d\x17\x0e\x62\xfc\xf0\x80\x39\xbe\x37\x41\x49\x6b\x2d\x55\x6d\x18\x4c\x84\x8e\x89\x5a\x38\xc0\x1b\xca\x77\x04\x36\xc1\x84\xe2\x80\x94\x33\xc6\xd4\x98\x17\x05\x07\x2c\xeb\x80\xe8\x79\x4f\x09\x59\x08\x1d\x0d\x8c\xd5\x37\x3c\x07\x02\x27\x89\x8b\x4c\xd2\xa7\xdd\xef\x05\xec\x8a\xa8\xfb\x08\xa7\x16\xef\x91\x55\x62\xf5\xd5\xeb\x1a\x6f\xf6\xeb\xf7\xbd\x29\x2a\xf1\x4a\x90\x63\x8a\xc6\x58\xc5\x35\x2f\x84\x15\xda\xb8\x48\x2d\xde\xb6\x71\x9e\x1c\xd6\x50\xf9\xa4\xd2\xc6\xb5\x48\x43\x95\xd0\xad\x58\x27\xcc\xf2\x8a\xbe\x87\x60\xa7\xef\xf8\xb0\x79\x8b\x14\x4c\xc6\x64\x8a\xf8\x77\x79\x7b\x15\x45\x0b\x76\xc8\xba\xae\xbc\x81\xaa\xf3\xac\x7c\x64\x9b\xd3\x4b\xab\xfc\xe4\x7d\x42\xc6\xa7\x97\xa0\x44\x95\x97\xfc\xd6\x19\x99\xb5\xff\x1d\xda\x42\x03\x7e\x6d\x53\x0e\x19\xaf\x4d\x3a\x2c\xb8\xe8\x8c\x58\x83\x80\xb3\x45\xe5\xd2\xb3\x6e\x83\x6d\x51\xb5\xc9\xd9\x17\xbb\x66\x4d\xe5\xf6\x61\x61\x63\xb9\xc0\x03\xe1\xba\xbd\x14\x95\xc0\xb7\xff\xdc\xdf\xdf\x18\x70\xa5\x82\x44\x6d\x20\x8f\x2e\xfc\xab\x7b\x3e\xee\xac\xb0\x22\x2d\xf1\xdb\x9f\x8c\xfd\x08\x5a\xea\x9b\x24\x84\xa8\x7f\x19\xe2\xf1\xae\x22\xfb\x2d\xb1\x70\x1a\x7a\x5c\xf0\x42\xe4\x4d\x1d\xba\xe3\x83\xdc\x84\xbf\x9d\xc1\x17\x5d\xce\xe8\x1b\xef\xf3\x21\x0e\x8d\xf4\x71\x96\x8d\x76\xa0\x32\x89\x9e\xaa\x1a\xdd\x8c\xc9\x87\x1b\xc4\x58\x38\x6e\x44\x17\x27\x07\xe3\x6c\xc1\x94\x66\x23\xd0\x97\x5b\x44\x1b\x6f\xd2\xd5\xe3\x6f\x8b\xca\x87\x57\x5b\xf5\x1b\x7d\xab\x70\x78\x74\x30\x77\x27\x7f\x3b\xf6\x5e\x70\x99\x53\x81\x8d\xe7\xee\x3e\xf8\x49\x7b\xa1\x4e\x54\xf9\x93\x3d\xb2\x45\x35\x1e\x1e\x45\x45\x82\x30\x8e\x08\xd5\x6c\xe5\xf4\xe4\xf7\xff\xf6\xb7\x3f\xfc\xee\x5f\x7e\xf8\xe7\x7f\xff\xe1\x1f\x7e\xfb\x87\x7f\xfa\xbb\xff\xfa\x8f\xff\xfc\xfd\xef\xfe\xfe\x87\x7f\xfd\xed\x1f\x7e\xfb\x8f\x27\xd3\xe0\x7f\x12\x77\xba\x39\x5e\x59\xae\x9f\xde\x55\xda\xb7\x81\x0d\xd2\xb7\xe5\x1f\x9d\xc7\xe4\xf9\x80\x8d\x3f\xe9\xdd\x87\x4d\x86\x88\x57\xf6\x01\x13\xed\x9b\xa7\x71\xa3\x07\xad\x4a\xbe\x8d\xbf\x36\xe3\x0b\x4e\x48\xa8\x52\xa8\x45\x5f\x76\x69\x5b\x52\x60\xf7\x7e\x49\xd1\x80\xad\x82\x24\xa7\x21\xbe\x20\xb1\xb5\x6f\xe1\x50\x50\xf7\xf6\xa9\x70\xdf\x36\x8f\x05\x3a\x6b\xa4\x23\x81\x32\x5f\x09\xbb\x5e\xfb\xbe\xee\x3e\xe9\xf8\x73\xec\xf1\xd1\x39\x6b\x9a\xfe\x5a\x68\x85\x6e\x5d\x74\xdc\x77\x1e\xb1\x4e\xc0\x63\x3f\xb2\xfb\x94\x1d\x7d\xce\x3a\x27\x49\xc2\x2c\x7e\xc9\x3b\x0e\xdb\x16\x4b\x39\x60\x7b\xce\x5b\x0f\x7b\xfe\x94\xc4\x3d\x18\xaf\x58\x9a\xf2\x7c\xbc\x85\x60\xcc\xd2\x87\x71\x78\xac\x8d\x71\x42\x76\xce\x1c\x3a\x64\xc8\x61\x4d\xab\xe7\xeb\x32\xb2\xa0\x30\x8a\x98\x2c\x85\xa5\x27\x0e\x63\x0d\x8d\x4e\x53\x4b\x41\x5b\xf5\x52\xd8\x0f\xb5\xc9\x0e\x51\xd4\xa7\x7b\xd2\xbb\xed\x34\xf3\xf4\x84\xbd\x28\xf3\x7b\x2c\xcd\xc6\x40\x0e\x01\xa1\x34\x93\x59\x81\x1d\xc3\x66\x21\x86\x43\xe5\x81\x46\x31\x9e\xe7\x08\x40\xd9\x55\x5c\x7a\xa9\x0a\x69\x41\xcb\x67\x35\x26\x12\xc0\x5b\x94\xa5\x30\x86\x9d\x4c\xdd\x8c\xb8\xfc\x6e\xe9\xba\x5b\x57\x6f\x05\xfe\x88\xd6\x21\x19\xbd\x2f\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\xf4\xda\x07\xb7\x7c\x33\x7d\xda\xca\x9e\xee\x79\x74\x6b\x97\x45\x49\x8e\x0d\x31\x16\xa7\xc2\x55\xf6\xc9\x4d\x32\x61\x48\xd9\xc6\xae\xfc\x82\x4a\x22\x37\x9f\xb3\x1c\xd1\x0b\x99\xcf\xc5\xed\x17\xf5\x62\x21\xf4\x08\x70\x8d\xcb\x8b\x59\x9c\xc0\x77\x5e\xe1\x60\xfb\x8d\xaf\xbd\xaf\x7e\x84\x27\x3f\x0f\xcd\x90\x3d\x7f\x7c\xf5\xea\x03\x5f\xfd\xc0\x61\x30\x9e\x51\x54\x31\xfc\xed\xee\x42\xe2\x6b\xae\x74\x0b\xd2\xe8\x1b\xfa\x3b\x3c\xe1\xe6\xfc\xa8\xed\xd7\xe3\x0e\xbd\xa6\xd8\x75\xe1\xf0\x55\x3d\x0b\x0c\x00\x38\x80\x08\xab\xc5\xab\x7a\x66\xe6\x5a\xce\xe8\xc1\x95\xad\x3b\x85\x69\xfb\x15\x96\xce\x3e\x09\x2e\x21\xee\x49\xa5\xff\xcf\xcc\x12\x17\x3b\xde\xcb\x59\x8e\x43\xc0\xfa\xef\x46\x3c\xba\xaf\x17\xb1\x41\xfb\x1d\xc3\x67\xfc\x5a\x44\x1b\x76\xe8\x3b\x2b\xb8\x47\xfb\xdf\x59\x69\x20\xef\xbd\xea\xd1\x7a\x4f\x36\x0d\x04\x0e\xd7\x3d\xa2\xbd\xee\x79\x5f\x65\x37\x04\x57\x08\xf0\xa7\xf7\xcc\x4a\xb3\xae\x43\x9f\x59\x89\x9e\x57\x69\xaf\xf9\xb9\xb8\x6d\x96\x7d\xd4\x13\x2b\xb0\x51\x3d\xf7\x5c\x43\x58\x67\xab\x4f\x94\xe9\x6a\x7a\x74\xdd\x85\x38\xe2\x0d\x96\x68\x97\x7f\xd4\x1b\x2c\x11\x9c\x50\xfb\x7a\xd4\x63\xa0\x8c\x11\xcb\x75\x71\xd4\xd6\xcb\x2a\x47\xbe\xdd\x11\xc5\x97\x89\xa8\x1b\xb7\x0f\xbb\x6f\xd3\x99\xa5\x13\x80\xcf\xcc\xb2\x3f\xac\xbc\x5d\x71\xd9\x75\xe1\x70\x47\xdd\x76\x61\x96\xe9\x13\xd4\x7b\xdd\x95\x86\x3b\x1e\x3f\xf9\xf4\xa0\x37\x33\x86\x2d\x8e\xda\x53\x2a\x86\x0b\x3e\xa0\x54\x0c\x4b\xc3\xd4\xec\xd7\x62\x1e\x9e\x93\x35\x61\xbf\xfc\x1b\x17\xcf\x78\x79\x4f\x19\x0f\x85\x8c\xe1\x1e\xf9\xc7\x72\x9a\x1a\xe6\xb6\x8c\xd3\xcb\xc2\xcc\x88\xd2\x48\x10\x77\xee\x3e\x4d\xab\x82\xac\x03\xef\xbe\x67\x6c\x2a\x30\xc9\x5c\x79\x44\x39\x6f\x69\xb0\x3d\x95\x64\x9e\xce\x2d\x1e\xa4\xf9\x61\x09\xf1\xc4\x93\x70\xc9\x77\xde\x80\x1d\x1f\x53\xd5\x02\x2b\xfa\xf0\xaa\x96\x68\xf4\x9e\x17\x15\x60\x35\xff\xd3\x2f\x2a\x34\xd8\x6d\x5b\x11\xbd\x0a\xe8\xb2\x9e\xe5\xd2\xac\x1a\xfd\xf3\xe3\x9e\x53\x38\xc4\xfa\xf8\x90\x67\x12\x7c\x21\xc5\xee\xa7\x12\xb6\xb4\x44\x58\x9d\xab\xa5\x08\xef\x25\x50\x55\xc5\x1e\x83\x66\x18\x95\x4b\xb4\x8e\x42\x5c\x23\xd1\xa3\x57\x5a\xd5\x11\x9b\xc5\x11\x9b\xb5\x11\x7f\xc2\x6f\x1e\xa0\x01\xf4\xa1\x6f\x1e\xf4\x50\xa5\x53\xf6\x1d\xf6\xe6\x81\xd7\x0b\x7f\xb4\xd7\x0d\x7a\x50\x3e\x40\x55\xb1\x7e\x5d\x35\x9d\xb2\x43\xd4\x90\xd0\x3a\xa4\x53\x37\xd5\xd1\x74\xca\xb6\x35\xd2\x74\xca\x1e\x22\xe8\x7e\x30\x5d\xe6\xf1\x83\x3f\xfd\x74\xbb\x2d\xc5\x6c\xe5\xf9\x39\x4b\xde\x49\x77\x3b\xeb\x5d\xd2\x33\x8d\xcf\xae\x6e\x03\xf1\x45\xb4\x1e\x91\x8e\x8c\x64\xe7\x9b\x0d\x87\x2a\xe5\xae\x54\xe1\x6e\xad\xdc\xfd\x38\x52\xcc\xc3\x4e\x37\x77\xab\xe6\xce\xc4\x5d\x4b\x33\x6f\xbc\xed\xe0\xff\x47\x6a\x5c\xe5\x4c\x54\xe3\xc2\x7b\x94\x35\x2c\xce\x4b\xfa\x67\x66\xb9\xa9\xab\x4f\x11\xd7\x9f\x46\x61\x1f\x6a\x63\xed\xcb\xd7\xed\x55\xd0\x61\x22\x04\x1c\xc0\x8d\xa3\x6d\xf8\xef\x00\x00\x00\xff\xff\x9b\xf7\x11\x8f\x54\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\x12\xc9\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x0d\xf0\x9c\x48\xea\xb7\xe2\xf3\x66\x13\x86\x35\x99\xdd\x91\x05\xc5\x96\x6b\xfd\xf3\x25\x29\x54\xcb\x78\x0c\xb7\x76\x0e\x98\x55\xa5\x24\xac\x14\x50\x50\xb9\xac\x32\x01\xb2\x82\x82\xdc\x51\x60\x65\xc6\xee\x59\xd6\x90\x1c\x68\x99\xd5\x15\x2b\xa5\x80\x39\xaf\x0a\x10\x94\xdf\xb3\x19\x15\x23\x44\x83\xd3\x0f\x0d\x15\x12\x48\x99\x01\xa7\xa2\xae\x4a\x41\x41\xae\x6a\xaa\x20\x61\x57\x5c\x51\x25\x68\x0b\x65\x04\x44\xc0\x03\xcd\x73\xfc\x4b\xcb\x59\x95\x51\x2e\x10\x00\xc2\xcb\xa8\x79\x9e\x57\xdc\x0c\x54\xd0\x46\xea\x05\x41\x4a\xcd\xa1\x6a\x38\x88\xa6\xae\x2b\x8e\x94\x96\x9c\x94\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xaa\x44\x68\xf3\x8a\x17\x44\x8a\x34\x0c\x59\xa1\x7a\xc4\x61\x10\x4d\x57\x92\x8a\x28\x0c\x22\x5c\x3b\x7d\x94\xf8\x53\xa1\xc1\xca\xc5\xf8\x37\xa2\x2a\xf1\xc5\xbc\x50\xef\x59\xa5\xff\x3b\x66\x55\x23\x59\x8e\x0f\x25\x95\xe3\xa5\x94\xb5\xfd\xdd\x70\xf5\x5a\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x6d\xa9\xef\x16\x63\xca\x79\xc5\x15\xa7\xed\x99\xc8\x71\x9e\x7a\x63\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xf0\xed\x39\xab\xd4\xdf\x74\x81\x1c\x8e\xa0\x68\x99\x6d\x36\x47\x41\x5d\xf0\x7a\x66\xa1\xee\xe0\xa9\x1a\x07\x5b\xc6\x05\x95\x24\x23\x92\x6c\x4f\x7a\xf4\x94\x08\xbf\x3d\xf1\x03\xe7\xcb\x75\xb0\xe8\x78\x73\xe1\xd9\x3d\x01\x00\x76\x8f\x8e\x22\x4b\x4b\x6c\xfc\x75\xc2\x14\xd8\xbd\x83\x63\x12\x86\xe1\x3d\xe1\x10\x87\xc1\x7b\x98\xc0\xbc\x90\xe9\x4d\xcd\x59\x29\xf5\xb3\x12\x60\xe9\x65\x55\xd4\x84\x53\xfd\xca\x48\x9f\xf4\xa9\xac\x98\x7e\xd3\x59\x66\xfa\x92\x3e\xdc\x50\x7e\x4f\xb9\x6e\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xb7\xe9\x65\x55\xaf\xf4\x83\x66\xde\xf4\x7b\x4e\xea\x30\x18\x8f\xc1\xec\xa7\x65\x43\x2d\xe3\xb1\xab\x12\x49\xe9\xd3\x52\x8d\x6b\x85\x4c\xfa\xdc\xfc\xc4\xd7\x46\x7c\xa4\x57\xf8\x17\x5f\xd8\x23\x9d\xde\xa8\x1f\xf8\xca\x3b\xa6\xe9\xad\xfd\x8d\x0d\xed\xf1\xc3\xde\xac\x5c\xfc\x8a\xe4\x8d\x5a\xb7\x27\x57\xd2\xaf\xf0\xf7\x0b\x22\xee\xc2\x24\x0c\xc7\x67\x47\xfd\x83\x2b\xab\x93\xc0\xbe\x3a\xfc\x6f\xac\x34\xe8\xb7\x25\x10\xd4\x37\xf7\x94\x8f\x80\xc9\x2f\x04\x34\x82\xce\x9b\x5c\xa9\xa9\x79\x53\xce\x90\x0a\x02\xe4\x92\x48\x28\x29\x6a\xa9\x0a\xaa\x5a\xd9\x06\x50\xe1\xd8\x9a\xf2\x73\xab\x06\x10\xe0\x94\x08\x26\x52\xf8\xaa\xe2\x40\x1f\x49\x51\xe7\x74\x04\xab\xaa\x81\x82\x2d\x96\x12\x6a\x22\x50\x45\x7a\x08\xcb\x0a\x88\x9b\x48\xcf\x53\xf3\x2a\x6b\x66\x54\x20\x38\x52\x2a\x0e\x48\xbf\x21\x65\x96\x23\x8e\x0f\x4c\x2e\x81\x92\xd9\xd2\x68\x7a\x88\xed\xec\x09\x3c\x30\x4e\x33\x68\x6a\x44\x92\x80\xa8\xe9\x8c\xcd\xd9\x0c\x6a\x22\x97\x29\xc4\xdf\x4a\x04\xc8\x04\xd4\xbc\x9a\x92\x69\xbe\x02\x02\x05\x13\x52\x5b\x09\x90\x51\xc1\x16\x25\x0e\x65\xe5\x7d\x75\x87\xea\x9e\x02\x32\x1b\x9b\x51\x67\x55\x28\x14\x29\xc2\x69\x57\xa0\x79\x00\x58\x4b\xc9\x34\x09\xc7\x63\x47\xdd\x59\xce\x68\x29\xbb\xd4\x95\x15\xcc\xaa\x3c\xa7\x33\xe9\x19\x28\xf9\x0a\x66\x55\xa9\xc1\xd1\xcc\x33\x57\x58\x89\x0b\x42\x80\x82\x95\x8b\x5c\x1b\x26\x9a\x56\x0c\x29\x5c\x50\xc4\xc3\xc7\x97\x95\x92\xf2\x39\x99\xd1\xa1\x9d\x40\x60\x6e\xb2\x7e\x23\xa9\xc1\xc9\x5a\xab\x44\x19\x0b\x78\x00\x2f\xcd\x7a\x66\x55\x31\x65\xa5\xa2\x53\x61\x50\xf4\x36\x76\x64\x4c\x29\xd9\xf0\x12\x98\x44\xba\x22\x82\x33\x92\xe7\x94\xa3\xc5\x44\x2c\xb2\x69\xa8\x96\xb3\x43\xd0\x75\x18\xbc\x29\xdd\xfa\x68\xb6\x5e\xa7\x76\x84\x36\x01\x8d\x24\x58\xaf\x39\x29\x17\x14\x3e\x65\x70\x31\x01\xd7\xe7\x85\xde\x32\x94\x63\xeb\xf5\xa7\xcc\x8c\xb1\xb3\x00\x80\x5b\x6a\x6a\x5f\x86\xeb\xb5\x16\xae\xda\xba\xb4\xaf\xc5\xe1\x29\x90\x81\x21\xf6\x16\x91\x80\x37\x69\x3c\x93\x8f\x60\xac\x34\x54\x0d\xf8\x77\x84\x0c\x73\xb6\x5e\x7f\x5d\x21\x62\xf0\x29\x4b\x5f\x6b\x13\xf4\x76\x55\xdb\x05\x26\x10\x6f\xf5\xd0\x86\xa9\xd7\x65\xa4\x05\x5c\x02\xeb\x30\xb0\x76\xab\x7a\x87\x88\xd2\xb4\x67\xe5\x88\x0c\x4e\x9e\x84\x01\x2a\x2b\xce\xe1\x93\x09\x94\x2c\x47\x08\x81\xd9\xaf\x92\xe5\x0a\x48\x18\x6c\x42\xfb\xce\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x7f\xad\x28\xe6\x6d\x47\xc0\xe9\x07\x5c\x88\x81\x90\xc6\x87\x76\x3b\x0c\x82\x7b\xb7\x77\xc2\xdf\x3b\x44\x4d\xa1\x92\x84\x41\xcf\xae\xed\x6e\x1b\xee\x9b\x7d\x7b\xaf\xb7\x23\x40\xb6\x6e\x75\xb3\xbf\x37\xa8\x1c\x9f\xe6\xf9\xd5\xe3\x8c\xd6\x52\xe9\x29\xa1\x45\xac\xa3\x94\xd2\x50\xe8\xb2\x98\xb3\x69\x1b\x04\xa8\x6d\x24\x08\xc5\xb3\x09\x1c\xa9\x5f\xb0\x2c\xcb\xe9\x03\xe1\xda\x0b\x7c\x23\xac\x5f\x88\x4e\x50\x5d\xe7\x2b\x14\x31\x28\x36\x25\x02\x2f\x5c\x6f\xe5\x75\xd1\x7b\xca\x57\x6e\xdb\xf0\xbc\xa0\x04\x31\x6e\x9b\x82\xf7\xaa\x46\xad\x41\xf2\x7c\x35\x72\xfd\x04\xcc\x48\x09\x53\xaa\x74\x0d\xcd\x70\xd8\x74\x05\x25\x92\x5d\x56\xf8\x9e\x3e\xce\xf2\x26\xa3\x99\xf6\x02\xa7\x14\x51\xc0\x35\xd7\x34\x4b\x77\xa8\x11\xb7\x38\x8d\x20\xba\x91\x44\x36\x22\x1a\x41\x74\xcd\xca\x45\x94\xb8\x73\x7f\xe6\x08\x92\x0c\x8e\x77\x18\x7a\x54\x19\xb5\xd8\xa4\x69\x2a\x94\x59\xa0\x98\x87\x95\xe6\xf5\xc5\x04\x0a\x52\xbf\xd5\x4d\xef\x34\xf9\xd7\x1b\x64\xaf\xed\x03\xd3\x73\x5a\x82\x20\x88\x3c\x36\x8a\x2e\x60\xbd\x19\x85\x81\x6f\x46\x6e\xc2\x30\x40\x5d\xff\x1e\x51\x41\x30\x1a\xa4\x43\x0b\x67\x62\x73\x78\x3f\x82\xea\x0e\x9b\x2d\x62\x6f\xe9\xe3\xbb\x27\xf0\x49\x75\x87\xd8\x06\x41\x4d\x4a\x36\x8b\x5b\x0b\x6f\x1e\x47\x57\x16\x84\x5d\x37\x7c\xf1\x99\xf8\x02\xb2\x8a\x0a\x28\x2b\x09\xf4\x91\x09\xf9\x04\x04\xa5\xfe\xc6\x3b\x9f\x52\x99\xf4\x88\x54\x92\x18\x7e\xce\x68\x4e\x25\x8d\x2d\x06\xaa\xad\x5d\x00\x2b\x67\x2d\xfa\xb6\x0f\x1c\x4f\x28\x36\x57\x20\x26\x13\xe8\x90\x4c\x41\x08\x82\x5e\x51\x0a\x13\x0f\xf3\xb8\xb7\x0b\xe2\x1e\x6c\xb6\x49\xae\x8f\xdd\x77\x64\x4a\x73\x9a\xb5\xdc\xa0\x43\x28\x0b\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x58\xd2\xd2\xb5\x56\x1e\xbb\x1a\x60\x9a\xeb\x46\xfa\x94\x99\x83\xd0\xe8\xce\xa0\xe3\x32\x44\x07\x77\xd8\x0c\x8d\x1a\xce\x66\xca\xcc\x6a\x97\x01\x0f\x4b\x36\x5b\xaa\x33\x24\x68\xd9\x87\x82\xd1\xe4\x66\xb4\xb5\x63\x2a\x6e\xf4\xf8\xee\xaa\xf0\x90\xc4\x9a\x81\x47\xbb\x52\xb8\x47\x30\x87\x43\xeb\xfa\x68\xd9\xb4\x83\xd4\xc8\xac\x53\x51\x9c\xd3\x19\x65\xf7\x28\x9a\xa8\x5e\x62\x35\xef\xac\x3b\x85\x1b\x4a\x1d\x18\x0f\x8a\x6a\xb0\x86\xa8\x41\xf8\xea\x11\x11\x45\x8e\xcc\xa8\x24\x2c\x17\x68\x27\xdb\xe3\x84\x40\xac\xb1\x4b\x72\x26\x57\xe9\x3e\x11\xd2\x59\x7b\x5c\xfc\x08\x8a\xfe\xaf\x9c\xf9\x9f\x23\x67\x3a\xc3\x46\x70\x92\xd8\x39\x3e\x40\x71\xac\xeb\xf9\xf5\xeb\xeb\x4b\x5c\x27\xe5\x27\xfb\x9e\x68\xc6\x79\xc3\x31\x5c\x2b\x5a\x63\xc0\xed\x0f\x90\x7b\xc2\x72\x32\xcd\xa9\x76\x1b\x16\xaf\xaf\x2f\x61\xc0\x19\x30\xc7\xa9\x0b\xd9\x79\x88\xa2\x95\x0d\x23\xa8\x94\xed\x20\xf0\x3c\x74\x62\x31\x8a\xbd\x29\xd7\xa6\x45\x32\x34\x11\x6e\x97\xf0\x3a\x0a\xe4\x89\xb7\xef\x86\x21\x21\xf7\xf6\xb5\x3e\xa3\xf3\x8a\xd3\x18\xb1\x7d\x61\x62\x4a\xb7\x95\xb1\x3e\x93\x11\xee\xda\xd6\x3c\x13\x34\x9c\x68\x99\xc5\x9d\xd7\x6e\x3d\x69\x9a\x26\x2a\xd0\xb1\x5e\xc3\x6d\xf5\x5d\xf5\x40\x79\xcb\x88\x48\x2a\xdc\x5c\x6b\x1a\x7e\x8e\x18\x61\x23\xe5\x6b\x74\x93\x0e\x72\xef\x7a\x6d\x61\x3a\x96\xbb\x80\xee\xb2\x5c\x88\x26\x46\x86\x76\xa4\xef\xe3\x52\x34\x45\x82\xe7\x2a\x52\x8e\xeb\xf7\x7a\x18\xeb\x58\x75\xb8\x2a\x7b\x3b\x18\x5f\x07\x7b\x74\x28\x91\xa6\x29\x0e\x43\xda\x6d\x31\x3f\x0a\xdf\x76\xc1\xdb\xae\xb3\x33\xce\xfb\xf7\xdb\x19\xfa\x5a\xcb\x79\x70\xfe\x04\xee\xea\x0e\x91\x01\xb6\xa8\x6c\xe2\x21\x9e\x41\x6f\xdc\x2c\x13\xa8\x40\x51\xeb\xe1\x28\xab\x76\xb9\xc7\xaf\xf4\x20\xaa\xea\xb0\xc5\x02\xce\xda\xa9\x92\x16\xfc\x01\xff\x17\xdd\xa3\x9f\xd6\x01\x7e\x8f\x3e\x52\xdd\x71\xa1\x76\x28\xa9\x56\xa1\xb8\xc9\x77\xaa\x4e\xf4\x84\xeb\x8f\x74\x82\x0d\x85\x35\xcb\x1f\x26\xef\x78\x0c\xfb\x4e\x07\x30\x14\x87\x8e\x27\x54\x8c\x38\xd5\x03\x4c\x8f\xaf\x70\x7f\x54\x9c\x08\x73\x3a\x94\x4b\xa1\xc3\x48\x46\x84\xee\xb2\x99\xf5\x76\x31\x98\x83\xb1\x2a\x7e\x9e\x55\x05\x61\xe5\xbe\xce\x29\x5c\x73\x56\x10\xce\xf2\x95\x0d\x6f\xf9\xb1\x30\x2d\x91\xf7\xad\x23\x7e\xbf\xcb\x1c\xb8\x96\xd7\xf4\x43\xcb\x8c\xca\xed\xf6\x9e\xba\x81\x0f\xe5\x68\x9b\x31\xc7\x38\xda\x6e\x27\x3f\xec\xd9\xa6\xab\xf2\xe8\x6d\xda\x2b\xa3\x7a\xf7\x49\x8f\xb0\x5d\x86\x36\xea\xf0\x16\x98\x29\xd4\x86\xed\xd9\xd6\x3a\x5f\x1d\xb5\x4f\x7b\x17\xd2\xb7\x51\x7d\x91\x90\x7d\x3b\x25\x6a\xdc\x2a\x3b\xea\x88\x73\xe4\x6d\x96\xa8\xfb\x76\xeb\x1b\x9a\x63\x58\x3d\xd4\x8c\xd6\xab\x48\xfb\x05\x50\x91\x81\x4d\xe3\xa4\x2f\x9e\x27\xdb\x1d\x10\x5f\x14\xa3\x77\x23\xb8\x6f\x2d\xbe\xc2\x99\xaa\xf7\x9d\x10\x8c\xca\x46\x53\xb8\xa3\x2b\xb5\xdd\x19\xda\xb4\xd3\x4a\x2e\x91\xc6\x76\x16\x93\xc7\x85\xf8\x2e\x31\xee\x07\x76\xcd\x73\xc8\x71\xbf\x0c\x14\x62\x9c\x2e\x15\x6e\xbd\x24\x65\x55\xb2\x19\xc9\xbf\xa1\x24\xa3\xfc\x17\x74\x65\x7d\x13\x9c\x48\x54\x26\x08\x2c\x8d\xab\x67\x41\xcc\x66\xd4\xc6\x3e\x28\x93\x4b\xca\xcd\xcc\xd8\x8e\xa4\x98\xb8\xb5\x7e\xcf\xe4\x52\xe5\x21\x90\x44\x23\xb5\xd6\xb7\x5f\xbe\x4b\x0e\x76\x1c\xc0\x2e\xbe\x4b\x5a\x08\xc6\xea\x37\xdb\x37\x93\x8f\x4a\x07\x5b\x1b\x70\xff\x3f\xb5\x8f\x3a\xd2\x7c\xb2\x5d\xf9\x92\x3e\x78\xa3\xf5\xf4\x2a\xeb\x60\x42\x47\x30\x25\xb3\x3b\xdc\x9e\x95\x3d\x33\x3a\x44\x8f\x6b\x2d\xa9\xca\x78\xa4\xf0\xad\xc4\x7d\x34\xc1\x7e\xc3\xae\x6c\xca\xd0\x67\xb3\x5b\x60\x62\xd9\xb2\x82\x8c\x91\x5c\x07\xbc\x73\x22\x29\x87\x19\x66\xa3\xd0\x09\xa7\x3e\x4c\xcd\xa0\x1d\xec\x62\x6c\xd6\xea\x33\xd5\xf8\x5e\x56\x65\xb9\xc7\x38\xd5\x9d\xac\x71\x1a\x0f\x58\xa7\xfe\x91\x43\x0b\x61\x3b\xd6\x1a\x78\x6f\xeb\xbb\x05\x9e\x34\x1b\x72\xed\x16\x59\x04\xbb\x5e\x8d\x1f\x60\x6d\x65\x60\x70\x4f\x78\x9f\xe8\xb1\xa6\xde\xae\x4b\x1a\x06\xeb\x7e\x83\xd2\x0d\x99\xec\x5a\x96\x86\x6a\x8a\x3d\x91\x50\xd6\xf3\x34\x8b\xd8\x6c\xd2\xbe\x08\x70\xe4\xfa\xd9\x39\xa2\x7d\x96\x65\x6b\x7a\x3e\xa7\x87\x4c\xcf\x03\xd2\x4b\x87\xdb\x82\xd6\x36\xc7\xc7\xc4\xd1\x20\x56\x7e\xa5\x22\xb2\xb1\x53\xdb\x5f\xf6\x87\x3b\x40\x76\x90\x38\x68\xaa\xc3\xb9\x01\xe5\x70\xb6\x63\x2f\x30\xef\xb1\x87\xe6\xa3\x76\xde\x60\x63\x85\x2d\x0a\x59\xa4\x01\x98\x13\xf5\xe3\xcd\x97\x3d\x7a\xf1\x39\x3d\x46\x2f\xee\xd7\x74\xc7\x9a\x2f\x46\x07\x0d\xe8\x45\x2d\x14\xcc\xa9\x7d\x4e\x4f\xd4\x8b\xb8\x98\xd7\x0a\x99\x23\x15\x23\x76\x75\x46\x0c\xaa\xeb\x93\x54\x63\x9d\xaf\xfa\x74\xa3\xbf\x6d\x3f\xde\x9c\x19\xb6\x3a\xaf\xca\x23\xac\xce\xc3\x1b\xe2\x19\x9f\x7b\x76\x78\xaf\xd5\xd9\xd9\xb5\x7d\xeb\xe8\x37\x66\xcc\x12\x8f\xdb\xb2\x53\xd3\x3b\xfb\xad\x4e\x83\x85\xd2\xc6\xe2\xb6\xf2\x0d\x19\x7d\x52\xfa\x34\x81\x99\x07\xcf\x89\x66\xd4\x3d\x50\xe2\x3b\xba\x12\xf0\xf6\x9d\x0d\xff\x1d\x80\x77\x54\x7a\xac\xc8\xe0\xec\x90\x11\xa5\x74\x43\x4d\x18\x6f\x27\x0f\x03\x1b\x0c\xbc\x6b\x4d\x2b\x85\xde\xda\xc4\xc8\xee\x6d\x20\x70\x26\x1f\x53\x45\x93\xf8\x2e\x49\x4d\xd0\x33\x79\x02\x36\x20\x18\x68\xc0\x2e\x2a\xa2\x1e\xb5\x21\xe3\x82\x60\x28\x44\x11\xa6\x6a\xeb\x58\x6d\x67\x45\x86\xc1\x35\xbb\x80\x9f\x57\xac\x8c\xcf\x8a\x6c\xd4\xbe\xba\xc6\x31\xb1\x1a\x89\xa1\x95\xc4\x82\x33\x94\x41\xab\xc6\x44\xd6\xf4\x4e\x1e\x1b\x37\xfb\xe6\xf6\xf6\xda\xf8\x19\xf6\xdd\xe1\x7f\xe3\x30\x54\x49\x7b\x4d\xe5\x52\xb1\x17\x4c\x20\x22\x75\x9d\xb3\x99\x2a\x53\x51\x95\x7f\x4f\x60\xb6\x24\x5c\x50\x39\x69\xe4\xfc\xfc\x67\x91\x0b\xb7\xe1\xac\x26\x74\x60\x72\xf3\xc8\x58\x4b\xf3\x46\x9d\xd9\xc3\x61\x38\x04\x56\x95\x50\x73\x9a\xd1\x39\x2b\x69\xa6\x2a\x2c\x84\x39\x73\x5b\xd3\x1c\x0c\xbe\x75\x0b\x7c\xba\xc1\x37\xbf\xf4\xc3\xda\x32\x6c\x0e\xa9\x82\xaf\xcc\x7e\x4f\x6e\x6d\xc5\x81\x90\x77\xde\xbe\x1b\x86\xae\xf6\xbf\xaf\xd9\x44\xe4\xf4\x1c\x68\xd7\x8a\x4e\x40\xae\x7f\xd0\x15\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\xe7\x92\xf2\x78\xbb\x45\x5e\xb6\x5b\x1b\x7b\xdb\x9c\x28\x40\xbb\xab\x3c\x2a\x1c\x68\xa2\x44\x2a\xf4\x57\x20\x61\x8a\xe6\x11\xcd\xa9\xd7\x55\x83\x38\x24\xa1\x67\x51\x98\x6c\xc6\xc5\x64\x90\xcc\xae\xeb\x14\xeb\x46\xca\x05\x02\x34\xc3\xd2\x67\xfa\x95\x89\x75\x17\x76\x5c\x8c\x46\x9a\xe9\x8e\x15\xbe\x53\xf8\x2b\xb8\xad\xde\x60\x05\xe3\x66\x13\x25\xe9\x35\x91\xcb\x4e\x1f\x7c\x71\x4b\x8b\x1a\xed\x69\xd5\xc3\xb2\xd3\x40\x3d\x98\x0a\x36\x76\xa3\x8d\x06\xa3\x1d\x03\xc7\xd9\x75\xb8\x3c\x6f\x4a\x95\x6d\x71\xea\x41\x77\xd4\x3b\x8a\x1d\xbf\xd6\x49\x33\xab\x86\x75\x73\x5f\xe0\x31\x50\x79\x84\x36\x2e\xe7\xff\x34\x42\xa3\x30\x46\x95\xcf\x34\x3a\x3b\xa7\x3c\x0e\x6d\x16\xd8\x3c\x9b\x9d\xf1\x7b\x6c\xe7\x23\xf4\x5a\x32\x3a\x27\x4d\x2e\x51\xdb\x69\x06\xc1\x13\xa9\xc2\x92\xd5\x1c\xb6\x65\xc1\x08\x08\x4c\xab\x4c\x39\x8e\x28\x1b\xb4\xd9\x8f\xee\x63\xa4\xe6\x89\x9c\xc7\x79\x8f\x52\x16\x41\xa9\xf7\xa9\xc2\x2e\x4e\xb4\x5f\x43\x40\xa8\xdc\x37\x20\x3d\x10\xd4\xff\xff\xf2\xcb\x14\xbe\x35\x79\x32\xec\xe9\xc7\x53\xf5\xb9\xa1\x5c\x95\x56\x63\x8f\x9a\x57\xf7\x0c\x5d\xe2\xa5\x6a\xc1\xb2\x81\x3c\xc7\x64\xbc\xc2\x56\xa7\x27\xb1\x5f\x6b\x93\xf9\xa0\x11\x8a\x07\x1d\x57\x91\xbe\x20\x5c\x2c\x89\x2a\x09\xb3\xf8\x17\xfa\x15\xe6\xf3\x45\x33\x9b\x51\x9a\x09\xed\x83\xfd\xfc\xe6\xd5\x4b\x53\xa1\x9d\xd9\x72\x6a\xeb\xc4\xa9\xb5\x3a\x74\x30\x55\x3a\xbc\x2c\x9d\xfe\xc7\x02\x79\x3e\xb2\xae\xa1\x5b\x59\xdb\xd8\x81\x06\xac\x14\x92\x92\xcc\xd2\x4c\x0b\x49\x5f\x42\xf4\x19\x22\xae\x92\x64\x04\x0f\xba\x00\xae\xcb\x06\xca\x66\xc4\x5d\x1d\xc1\x7b\x3c\x7e\x3e\x49\xb4\xf8\xc1\x6c\x64\x4d\xf9\x5a\xed\xe2\x05\xae\xc5\x6e\x28\x5a\x22\x6c\x6e\xa9\x85\x04\xd4\x8a\x16\xbb\xc4\x5d\xda\xb6\x7a\x96\xcd\x01\x9b\x9e\xa9\x29\xcd\xd0\x2b\x1d\x66\x75\x80\xec\x38\x24\x77\x9c\x3c\xb1\x33\x60\xb7\x89\xa7\x73\x11\x6d\x98\x38\x70\x36\x50\x10\x3c\xa4\x9a\x6d\xe2\x24\xbd\xa1\x32\x8e\x8c\x20\x3c\xbf\x5d\xd5\x34\x1a\xf9\x2a\x4f\x2f\x60\x69\x99\xcc\xc7\xbf\x2b\x1e\x2c\x1f\xb6\xeb\x40\xab\xc3\x33\x39\x2c\x0c\xd3\x53\xc4\x8a\xb0\xc1\x36\x2e\x77\xa3\x9e\x9e\xe9\xd7\x54\xc6\x77\x36\x6b\xb8\x09\x03\x75\x34\x2e\x74\xc9\x6a\xaa\xd9\xe1\x5b\x34\x1d\x4b\x92\x7b\x4a\x42\xe1\x2e\x66\x7b\xb0\xf6\xd8\xac\x45\x5c\x01\x9f\x80\x98\x19\xc8\xd8\x6c\xdc\xc7\x87\x54\x31\x85\xc1\x18\x3b\x26\xee\x65\x8c\xd4\x4e\x50\xde\xb4\x7c\xa7\x7d\x19\x1e\x4f\x9b\x39\xbc\x7d\x87\x55\xb8\x89\xe1\xf5\x75\xa8\x6c\xb5\x07\xf0\x59\xc8\x45\xc7\x2d\x9f\xbd\x29\xcd\xce\x22\x84\x11\x7c\xfe\x90\x3c\xd9\x8e\x9e\x6b\x2b\x45\xb0\xdf\x52\x98\xc0\xcf\xfe\xef\x9f\xff\x99\x66\xa1\x9c\x96\x38\x26\x81\xbf\xd0\x6d\xd8\x35\x40\x34\x26\x30\x6d\xe6\x6f\x2f\xf0\xe5\x3b\xa3\xe6\x8c\xac\xc4\x92\x12\x45\xb7\x79\x1c\x59\xe9\x00\xb8\x28\x95\xe5\xbd\xc0\xc0\x17\x26\x79\x6b\x34\x77\xa0\xac\xca\x73\xe4\x2b\x67\xc8\x63\xc7\x68\x84\xc0\x4d\x06\xd7\x40\x35\x55\xc1\x2f\xe9\x43\xfc\xa0\xcf\x85\xa2\x91\x92\xa1\xfe\xda\x6d\x4d\xc1\x3a\x0c\x54\x2f\x7c\x46\xf9\xf2\x6b\x9c\xe5\xc2\x08\xd0\x5f\x1b\x71\x8e\xfb\x6e\x7a\x11\xc9\xc4\x9c\xe1\xe5\x91\x25\x75\xd2\x50\x09\x52\x6f\x73\x5b\x37\x43\x00\x53\xf7\x3c\xec\x65\x97\x63\x8a\xb9\x53\x9d\x88\xf2\x26\x75\xa8\x2a\xb4\xf0\x82\x82\x9d\x0a\x67\x0a\x03\x2b\x7b\x01\xfc\x54\xbf\x33\xc9\x2d\x8f\xc4\xcb\x16\x68\xe2\xc9\xbc\x38\x81\x6e\xd1\xdc\x32\x6d\x67\x18\x18\xdd\x1e\x2b\x7c\x69\xce\x4e\x07\x84\x41\x2a\xec\x44\xde\xb7\x23\x0c\x07\x6d\x12\x2f\x48\x75\xc0\x28\x71\x41\x89\xbd\xda\x7f\xdb\xc9\x55\xd8\xf7\xa7\x56\x54\xb2\x55\x5f\xf7\xc1\x31\x28\xfc\xce\x8d\xae\xf1\xfd\x57\x3b\xcf\x35\xe1\xb4\x94\xc6\x27\x74\x7c\xaa\x4a\xd1\x50\x1d\x21\x56\xf6\xad\x82\x8c\x1c\x7c\x28\x72\x1f\x78\x21\x8a\xbd\xcb\xea\xf5\x79\xe1\xcc\x28\x18\xd5\x65\xd8\xdf\x0d\x32\x3a\xa7\x1c\x78\x8a\x52\x3b\xbd\xc4\x10\x27\x0a\x20\x25\x31\xd0\x17\x6e\xdd\xdf\xad\xb5\x1a\xc8\x28\xb9\xd1\x08\xc2\x03\xef\x72\x74\xa6\x82\xff\x35\x25\xd9\xd3\x3c\x8f\x35\xf0\xe3\xaa\x1c\x6d\x59\xff\x1c\x15\xde\x08\x22\x23\x09\x38\x2a\x5b\x6b\xf0\xe0\xca\x2c\x39\x23\x23\xa9\xb7\x04\xd1\x97\x6a\x6d\x41\x63\x85\x1a\xba\x46\x17\x13\x70\xd7\x58\x5a\x71\x67\xec\x3c\xd5\x3d\x78\x9a\xe7\xd5\xc3\x35\xe1\x92\x91\x1c\xa3\x6a\x92\x37\xc6\x28\x7c\xce\xc4\x8c\xf0\xec\x4d\xa9\xae\x1c\x5d\xb4\x2d\xb6\xfc\x03\x97\x3e\x01\x7f\xc2\x1d\x91\x8a\x59\xc9\x1d\xa1\xda\x2f\x56\x87\x05\x6b\xaf\x68\x35\x68\x74\x88\xe9\x0e\xec\xba\x87\xac\x86\x7a\x1f\x25\x73\x35\x41\x02\x4f\x21\x3e\x23\x99\x61\x07\xd3\x86\x08\xb4\x68\x39\x6f\x1d\x3d\xca\x6b\xc2\x49\x21\xac\xbb\xf2\x2b\xc2\x45\xcc\x71\x0f\xf1\x5a\x47\xdb\x8e\xbe\xfd\x87\x86\xf2\x55\xdb\x9d\xa7\x6f\x5e\x7f\x97\xfe\x12\x5f\xc6\x76\x80\xd7\x25\xf4\x7d\x18\x5d\xd9\x7a\x31\x69\xb9\x56\xdd\xc0\x30\x0e\x8c\xaa\x97\x29\x6d\xb7\xf4\xbb\x4a\x1b\xd6\x10\xa9\x45\xea\x3e\x18\x67\x55\x50\xd2\xaf\x69\xa9\x26\x75\xbb\x89\xde\x4d\x7f\x78\x77\x3f\x0a\xaf\x4a\x5a\xcd\x77\xf0\xa0\x1f\x76\xf1\x50\xcb\xfa\x31\x88\xb8\x63\xf5\x39\xa7\x1f\xda\x54\xb7\x71\x5a\x54\x24\xd9\x76\x6d\x23\x83\x3d\x0e\x51\xaf\xc4\x1c\x4a\x72\x6a\xf9\x28\xac\x77\xe0\xf4\x3a\x11\x4a\x7e\x6e\x7b\x03\xda\x37\xe2\x27\x24\x30\x7b\x10\xec\x93\x7d\xbd\xb6\xf5\x50\x4e\xd3\x99\x48\x43\x82\xe2\xc5\x8e\x98\xd8\x16\x12\x4e\x16\xbc\x11\xf4\x1a\x05\x0c\xca\x4b\xe1\x8b\x8f\x37\x82\x5e\x95\x4d\xf1\xb2\x29\xa6\x94\x8b\x8b\xb6\xe1\xaa\x60\xf2\x4d\x59\x57\x75\x83\x2e\x71\xe6\xc4\xca\x26\xec\xc8\xd3\x16\x37\x8b\x8e\xab\x55\x4f\x63\x85\x6a\xfa\x82\x0a\x41\x16\x34\xd9\x57\xf6\x60\xd9\xe0\xfd\xc8\x48\x2b\x67\x4e\x2a\x4b\xca\xeb\xe5\xe7\x60\x5d\x69\xa3\x30\xc6\x40\x5f\x0c\xa5\x3f\x8e\xb8\xa3\x85\x86\x92\xb1\xad\xed\x6e\x4d\x71\x25\xec\xf6\xa5\x5f\x11\xf0\x6e\xea\x75\x49\x04\x2c\x49\xa6\xc7\x0e\x25\x5b\x55\x8a\x2f\xc3\x0a\x4e\x86\x51\xe1\x96\xbf\xfd\xbb\xbf\x72\x49\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\xe3\x45\x66\xc6\x68\xab\x0b\x2b\x5a\x74\x8c\x13\x8a\xde\xb8\xa8\x34\x90\x6e\x46\x77\x6f\x2e\x77\x6f\x86\xf6\x6e\xe4\x28\xe4\x79\x2a\x7b\x87\x6c\xe1\xaf\x92\xb9\xbb\x30\x50\x78\x21\xb9\x9b\x92\xb6\x77\xac\x66\x4b\x94\x65\xa9\x6a\x21\xb9\xa8\x80\x64\x99\x39\xc3\x4a\xda\x43\xc3\xf3\x70\x7f\x4a\x39\x32\x5d\xcf\xf1\x26\xf2\xc8\x08\xf1\x6b\x22\x97\xc9\xa1\x81\x6e\x57\xb0\x32\x1f\x79\x0e\x85\x48\x94\x7c\x74\xee\x19\x41\x98\xa4\x89\x7d\x77\x42\xee\xd9\x1b\xdd\x86\x58\x7b\x52\xcf\x25\x60\x4f\x23\xbd\x20\x67\xf7\x68\xb5\x12\x69\xa8\x56\x54\x52\xc5\x17\x30\x7c\x40\x4a\xbc\xc8\xf5\x3d\x56\xe5\xd7\xfa\xca\x98\x7e\x87\x72\x72\x56\x15\x54\xdf\x64\x68\x27\xc9\x98\x98\xe1\x45\xfc\x15\x88\x95\x90\xb4\x18\x81\x50\xa5\xe2\x39\xbb\xa3\xf9\xca\x32\x1d\xb2\x11\x44\xcb\x4a\xc8\x0b\xe4\xe8\xc8\x08\xd0\xce\x0a\x62\x37\x95\xad\x36\x1e\x8c\xdc\x9e\x9e\x99\x66\x73\xf8\xc4\xb2\xdc\x37\x44\x5c\x73\x3a\x67\x8f\x6e\xc6\x11\x44\x78\x2a\x23\xed\x91\x3b\x3c\x26\xfa\xf5\xc5\x78\x1c\xc1\xff\x71\x94\x40\xae\x0c\x1a\x27\x05\x1b\x9e\xa7\xd7\x68\x9d\x38\x68\x47\xd7\x78\xa1\x71\xd1\x84\xe6\x2a\x2f\x7a\x96\x3d\x1e\x87\xc9\xaf\xea\x3b\x0f\xd1\xcb\x4a\x6f\xa4\x17\xde\xd6\xd5\xf7\x8a\x20\x3a\x18\x84\x80\x1e\x2a\x7e\x37\x02\x1d\x32\x07\xa3\xe9\xd1\xf1\xc3\x4b\x79\x5c\xdb\x9b\xba\x95\x21\x09\xa3\x36\x6c\x8b\xc5\x63\xc1\xf1\xbe\x50\xb0\x5e\xe3\x15\xdf\x6d\xe7\xc7\x20\x8d\xad\x2a\x02\x68\x8d\x0d\x84\xc4\xca\x8c\x3e\xee\x8e\xf8\xd2\x8e\x31\xd9\xfd\x6d\xaf\x62\x5f\x72\x1f\x8d\x0d\xf5\xdf\x60\xcf\xb8\x9e\xeb\xbd\x5e\x86\xdf\xe4\xec\x07\xc3\xc6\xc6\x82\x0c\x66\x55\xbd\x7a\xf3\xfa\xbb\xb8\x19\x81\xdf\xff\x19\x11\x14\xc5\x07\x86\x8f\x6d\xd7\xd6\x3a\xd8\xc5\xaa\x6b\x97\x76\x63\xc4\x86\x32\x3d\x05\x00\x3b\xd9\xfd\x60\x3b\xc1\x6f\x6d\xdb\x76\x37\x3b\xbf\xdb\x9f\x4e\x5c\xf5\x66\xfa\xf7\xee\x3b\x9c\xff\xa9\x76\x7e\x28\x90\x6e\x2a\x09\xb6\x89\x68\x9b\x4d\x71\xc4\xde\xf5\x7a\x15\x06\x4a\xf2\xd8\x7d\x9c\x12\x41\xe1\x0c\xcf\xf0\x9b\xd7\xdf\x8d\x54\x72\xc9\xa8\xd6\xc4\xbd\xc6\xf3\x5b\xa2\x5d\x70\x31\x81\x33\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\x63\x8b\x09\x30\x5c\xca\x47\x9b\x1a\xbd\x41\xfb\x76\xa6\xea\xe0\x1b\x6e\x42\x35\xc8\x8e\xf6\xe0\xca\x0a\xea\x26\xcf\xd5\x7b\xa3\xe7\x68\x86\x16\x86\x80\xaa\x41\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xc2\x9a\xb0\xbe\x03\x8a\xb6\x82\x09\x77\xa4\x00\x2f\x2b\x69\xee\xf0\x22\x48\x84\xa5\x24\xc5\x92\xdc\x53\xb0\xdf\xe6\xd8\x6f\x92\xa8\x79\xa6\x2a\x5b\x65\xae\xb1\xa9\x1b\x3b\x28\xf9\x2d\x6a\x78\x23\xda\xc4\xf7\x89\x2d\x68\x52\xb6\x07\xae\x6a\xe5\x02\xd5\x2e\xb5\xe7\x5f\xb2\xa3\xdc\x29\x5c\x93\x5a\xee\xd2\x4e\xa7\x93\xbd\xeb\x24\xc3\xfa\xc0\x8f\xf8\xf4\x74\x32\x19\xb7\x3d\x97\x30\x8f\xb0\x0e\x7f\xb2\x84\xb2\xb3\x78\x4c\xe4\xd7\xcf\x23\x3b\x9d\xa1\xf3\xbe\x09\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x41\x81\xbd\x1d\x92\xea\x15\x36\x7b\x23\x52\xdb\xfe\x95\x09\x47\x69\x6b\x6c\x3b\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x5a\xdf\x67\x3b\x24\x65\x5e\xa3\xe3\xab\xcd\x3c\x93\x25\x71\x2d\x68\x50\x13\x15\x0e\xf8\x7f\x5f\x7e\xe9\xa7\x8b\x46\xf0\x60\x72\x22\x2a\xe0\x59\x73\x8a\x46\x0e\x51\xe7\x81\x94\x0a\x96\x32\x0a\x14\xa3\x12\x29\xf1\x2b\x0b\x78\x7e\xf4\x2a\xfc\xf3\x67\x02\xd8\x50\x68\x17\xa6\xc5\xd1\x22\x71\x30\x64\x66\xcb\x43\x7a\x42\x66\xbd\x64\xdf\x1f\x31\xd3\x93\x9e\x1e\x32\x3b\x25\x02\x36\xc1\x2e\xe9\xd5\xab\xaf\x06\x83\x60\x18\xc5\x6e\x63\xe3\xc8\x18\x8a\x04\x80\x74\x5c\xf9\x51\xaf\x2d\xf3\xa7\x0f\x16\x06\xd4\x7a\xe2\x69\x0e\xa8\x01\xa7\xe1\x71\x2f\x17\x01\x9f\x74\x12\x1f\xaf\x7e\xb1\x77\x8a\x79\xbc\x9d\x89\x48\x46\x10\x79\x3c\x73\x01\x5f\x7c\x96\x7d\x11\x8d\x3a\x73\xb8\xb9\xd1\x1c\xc1\x05\x1f\xe2\xe6\xf0\xe4\xb8\xde\x60\x58\x6f\x28\xaa\xb7\x09\x8f\x8f\xe9\x89\x3a\x79\x72\x78\x13\x7c\xa2\xd8\x05\x9b\x4e\x9f\xb7\x35\xd0\x41\x37\x2e\xe3\x0b\xa0\xab\xf2\x44\x01\xe4\x7a\x7a\x86\xc1\x8e\x49\x70\x6e\x44\xd5\x11\x26\xd4\xde\x58\x90\x8b\x9e\x87\xce\xdb\x35\xe1\x20\x20\xc7\x07\xcc\xd5\xf7\x26\xf0\xe4\xdf\x13\xce\xaa\x46\x00\xaa\x13\xb4\xc2\x50\x2f\x07\xe3\xf1\xae\xf2\x8d\xd1\x8e\x18\x81\x0a\x98\xe9\x9c\x36\x1e\x92\xc4\x8a\x82\x23\x96\xb5\x5f\x16\xa8\x2e\x03\x25\x64\x2e\x74\x84\x1f\x8d\xba\x27\x39\xee\x45\x14\x99\xc8\xa4\x7e\xb5\xff\x7b\x01\x5b\xc4\x30\xb3\x69\x26\xb7\x11\x4e\x4e\x3f\x84\xe1\x96\xfa\x1a\x74\x8d\xb7\xfb\x0d\xfb\xde\x3a\x2a\x71\xa3\x64\x36\x5e\xaa\x97\x4b\x0c\xfc\x92\x82\x4a\x4c\xdb\xe0\xcd\x6f\xb9\x44\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xeb\x5a\xa4\xa0\x2a\x3c\xd4\x89\x75\xe2\x2c\x37\xfa\xbd\x0b\x76\xda\x8e\x9b\xed\x5b\xa4\x68\x32\x46\x63\x85\x7f\x9f\xb7\x87\xb8\xec\x4f\x1e\x6c\xcb\x20\x94\x73\x55\x93\x67\xe5\x17\xb2\x3d\xbd\x7a\x95\x9f\x7d\x88\xb4\xf1\x69\x25\xa8\xa6\xca\x6b\xf2\x60\x8c\xcc\xc6\xfe\x76\x6d\xae\x01\x7f\x6c\x51\x4e\x31\x5e\x97\x74\xaa\xe0\xa2\x37\x62\x8d\x02\x4e\x16\xb5\x49\xcf\x9a\x0d\x96\x45\xdd\x25\xe7\x50\xec\x1a\x2c\x1d\xcf\xe1\xb8\xb0\x31\x9b\xab\x03\x61\xba\xbd\xa6\x35\xc5\x18\xa3\x1d\xf6\xad\x78\x46\x3c\x89\xda\x42\x8e\x2f\xed\x57\xf7\x4c\xcf\xaf\x2b\xec\x05\x91\xdd\xfe\x28\xb1\x23\xf4\x52\xdf\x46\x2e\x44\xfd\x4b\x17\x8f\x37\x15\xd9\xef\x34\x0b\xa7\xae\xc7\x25\x29\x68\xde\xd6\xa1\x1b\x3e\xc8\x85\x7b\x36\x06\x9f\x77\x39\x63\x68\xbc\xcd\x87\x18\x34\xd2\xa7\x59\x16\xef\x41\x65\xe4\x7d\xaa\x2a\xbe\xc7\x98\x57\x9b\x37\xe9\x70\x23\xe2\x44\x73\x0c\x14\xcf\xa1\xe2\x10\xa3\xbe\xdc\x21\x5a\xb2\x4d\x57\x8b\xbf\xa2\xbb\x69\xbb\x91\x84\x5f\x3d\xd6\x7c\xb3\x61\xf3\x41\x32\x38\x86\x86\xd6\xb3\x0a\x82\x40\x16\xe6\xce\xdb\x56\x1d\xc8\x10\x18\xb3\x9e\x9e\x43\xd2\x7b\x4e\xcc\x31\x99\x13\x96\xeb\x42\x1d\x7b\x4a\x86\xe0\x47\x5d\x82\x19\x91\x67\x25\x44\x2c\x8b\x3a\x09\x4f\xda\x0d\x0d\x21\xd9\x47\x35\xd8\x74\x68\xa2\xb7\xc5\x12\x68\xbd\x1e\x9f\xfd\xe1\x5f\xfe\xfa\x87\xdf\xff\xd3\x0f\xff\xf8\xaf\x3f\xfc\xdd\xef\xfe\xf8\x0f\x7f\xf3\x1f\xff\xf6\xef\x7f\xf8\xfd\xdf\xfe\xf0\xcf\xbf\xfb\xe3\xef\xfe\xfe\x6c\x0c\xe7\xfb\xf7\xc4\x11\x6c\x68\xc9\xf0\xc9\xc4\x27\xe2\x47\xb0\xd9\xd9\x10\xe8\x1d\xf6\xf3\x57\xf6\x11\x13\x1d\x9a\xa7\x4b\xc6\xb6\x6e\x70\xeb\xc9\x3c\x6c\x36\x5d\x91\x54\x61\xe6\x6a\x28\x97\xb5\x2b\x97\x54\xf7\x61\xb9\xd4\x82\xad\x9d\xde\xd0\x43\x8c\xcd\x06\x9d\x7d\x73\x47\xb0\x52\xad\xdd\x33\x68\xde\x6d\x1f\x42\xb4\x63\x8d\x46\x46\xca\x7c\x4d\xe5\x7a\x6d\xfb\x9a\xdb\xab\xc9\x13\xd5\xe3\x93\x09\xb4\x4d\x7f\x49\x79\xa5\x9c\x61\x4f\xb8\xec\x3d\x88\xbd\x80\x0d\xc9\x87\xce\xe2\xc9\xa7\xb1\x77\x12\x7b\x1c\x1d\x0b\xed\x3b\x92\x3b\x2c\x65\x80\x1d\x3a\x95\xfd\xec\xf9\x53\x12\xf7\x68\xbc\x3c\x5e\x47\xfc\x76\x10\xf4\x59\x7a\xeb\xb1\xf3\x64\x1e\x54\xf4\xb5\xd5\xfd\x6a\x42\x98\x80\x41\x47\x9b\x8d\xb1\x32\x93\x0c\x5f\x97\x9e\xbd\xa6\x62\x96\xd1\x82\x4a\xfd\x41\x45\xdf\x1e\x40\xeb\xb3\x6b\x0e\xc8\xea\x35\x95\x1f\x6b\x01\x1e\x63\x16\x9c\x1f\x48\x26\x77\x93\xda\xe3\x33\x78\x55\xe6\x2b\xf5\x71\x26\x44\x58\xf5\x16\x26\xa9\x25\x96\x68\x35\xc1\xd4\x45\x8c\x70\x2c\xe6\x19\xf0\x3e\xa3\xa2\x6c\x25\x97\x7e\xa1\x67\x55\x30\x89\x36\x45\xd6\xa8\x2f\xc8\xa0\x6f\xca\x4a\x2a\x04\x9c\x8d\xcd\x8c\x6a\xf9\xbd\xa2\xe9\x80\x65\xd0\x4a\xac\xce\xfe\x99\x83\xb1\xed\xf6\xbd\x38\xec\xf4\xb5\x5e\xdf\x60\x9e\x76\x38\x51\x3b\x98\xa9\x55\x47\x04\xef\x49\x38\xc3\xd5\x61\xe8\x4b\x8a\x8f\xb7\x5f\xb5\x1b\xa5\xdc\x74\x0c\xad\xa0\x08\x82\xcf\xee\xa3\x11\x28\xca\xb6\x56\xec\x33\xec\xe0\x02\x0f\xee\xe3\x99\x31\x56\x02\x0a\x2c\x0b\x7f\xd6\xcc\xe7\x94\xc7\x88\xab\x5f\xcc\x0c\x7e\xb9\x80\xf1\x41\x83\xdd\x2f\x8a\x1d\xfc\xc6\x88\xfb\xc0\xe8\xb1\xf9\xb8\x97\x4f\x6f\x6f\x3e\xe6\xae\x84\x2d\x28\xc3\xf1\xa0\x63\x98\xee\xd9\xdc\xbc\x44\x5c\x10\xd1\x72\x04\x82\xdf\xeb\x67\xf7\xc1\x38\xe3\xb5\xed\x7e\xab\xee\xd8\x4b\x91\x7d\xd7\x1b\x6f\x9a\xa9\x63\x00\xc4\x01\xd5\x75\x43\x6f\x9a\xa9\x98\x71\x36\xd5\x9f\x77\xd9\xb9\xc1\xe8\x7f\x3d\x03\x3d\xb9\xbe\x3e\x28\x92\xf9\xbd\xdf\x53\x01\xa1\x2f\xc4\x42\x2d\x36\x39\xc8\x59\x86\x43\xd0\x99\xec\x47\xdc\xbb\x1d\xe8\xb1\xc1\x7a\xdd\xf9\x02\x05\xb9\xa3\xde\x86\x1d\xfb\x55\x17\x1c\x72\xc4\x57\x5d\x5a\xc8\x07\x2f\x96\x74\xbe\x5e\x9b\x3a\x02\x9b\x72\xfd\xc4\xdf\xeb\x81\xaf\xb9\xec\x87\x60\xca\x0e\xfe\xfb\x7d\xd4\xa5\x5d\xd7\xc1\x9b\xa2\x86\x49\xdd\x1e\x5f\x40\x77\xcd\x78\xbf\xc2\x2d\xfb\xa4\x0f\xba\xe0\x46\x79\x3d\x8c\xbe\x1a\x99\x1b\xea\x57\x65\x6f\x1f\x2f\xaf\xd6\xf6\xd8\xaa\xe3\x39\xf5\x8b\x2f\xde\x2e\x7b\xa5\xfc\xa7\x7f\xf1\xc5\x83\xe3\x8a\x82\x0f\x13\xd7\x5b\x1e\x00\x9c\x75\xa9\xdb\x92\x76\xe7\x3b\x2e\x66\xa6\xed\x5c\xc2\xd0\x3c\x5e\x34\x1b\x49\xb6\x5e\x77\xc9\xde\x9f\x55\x29\xc4\xc2\x08\xc0\x17\x62\x31\x1c\xc4\xde\xad\xef\xec\xbb\xde\xb8\xa7\x4a\xbc\x10\x8b\xf4\xb9\xd2\x7b\xfd\x75\x8d\x7d\x69\x78\xcb\xcb\x03\x77\x25\x0d\x79\x4c\xa4\xb3\x2d\x4c\xeb\xe1\x97\xed\x60\xa4\x5a\xf0\x11\x85\x69\x18\x28\x83\x6a\xfa\x1b\x2c\xb8\x30\xb1\x46\xe1\xf6\xcb\x7e\x51\xe3\x05\x29\x57\x3a\xbf\x82\x59\x37\x5b\x80\xa1\xbf\xbc\xd7\x60\x5c\x00\x93\x1c\x88\x1e\x0a\xc0\x52\x30\x4c\xb1\x99\xdb\x3b\x46\xa8\x0d\xe2\x3d\x90\x09\xc3\x79\x8d\xd9\x3e\x82\x72\xd6\xd1\x60\x2e\x07\xd0\x1f\x7c\xb4\x74\xee\xf0\xa0\x9e\x1f\x97\xe0\x4f\x6c\x26\xc2\x19\x5a\xb0\xc9\x29\x35\x34\xb8\x22\x13\x8f\xb6\xef\x4e\xa8\xa1\xf1\x46\x1f\xf8\x7e\x03\x2e\xff\xbf\xfa\xfb\x0d\x2d\x76\xbb\x56\xc4\xa0\x02\xba\x6e\xa6\x39\x13\x4b\xca\x4f\x29\x91\x19\xfe\x78\x83\x2f\x10\x7c\x5b\xc0\x93\x3d\xb6\x6c\x63\x47\x93\xef\xaf\xdb\x58\x1b\xfb\x7f\x78\xd8\x64\x8b\x87\x5e\xd2\x07\xb7\x3a\x53\xb9\xe1\xbe\xce\x10\x04\xbd\xc6\x8a\xaf\x3d\x22\xd3\xb1\xe7\x28\xf8\x15\x19\xcf\xe9\x21\x9d\xb1\x5b\x8a\xb1\x5d\x89\xd1\xa9\x7c\x75\x02\xc5\x9e\x8c\xde\xba\x8b\x5e\x91\x6b\x5c\x29\x0f\x91\xad\xba\x88\xd3\xbf\xb0\x80\x0b\x1b\x4a\x21\x0f\x89\x7d\x97\x39\x1e\xa0\x4a\xaf\xec\x3b\xee\x0b\x0b\x56\x2f\xfc\xc9\xbe\xa5\x30\x80\xf2\x11\xaa\x0a\x86\x75\x15\x16\xcc\x1d\xa1\x86\x28\xe7\x76\xbe\x1d\x75\x34\x1e\xc3\xae\x46\x1a\x8f\x61\xe3\x41\xb7\x83\x53\x55\x35\x6f\x07\x7f\xfe\xf9\x6e\x5b\x8a\x79\x4b\xf5\xb1\xc7\xf7\xcc\xdc\x05\x7b\x1f\x0d\x4c\x63\x73\xb9\xbb\x40\x6c\xc9\xae\x45\xa4\x27\xff\xd9\xfb\x85\x88\x63\x95\x72\x5f\x62\x72\xbf\x56\xee\xff\x14\x93\xcf\xc3\x46\x37\xf7\xab\x66\x93\x23\xdb\xa3\x99\xbb\x97\x6c\xdc\xff\x25\x8e\xa9\xd3\x31\x11\x12\xe5\x3a\x0c\x28\x6b\xdc\x6a\x2b\xe9\x5f\x88\xc5\xb6\xae\x3e\x57\xb8\xfe\x34\x0a\xfb\x58\x1b\xeb\x50\x76\xd0\x92\x7c\x50\x41\xbb\x89\xd4\x89\x70\xe0\x12\x6f\x1b\xfe\x73\x00\x24\xd4\x10\xca\xc2\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26964, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2c, 0xfb, 0xd0, 0x4c, 0xde, 0x28, 0x43, 0x54, 0xd, 0xef, 0x47, 0x92, 0xf, 0x80, 0x30, 0xf9, 0xa2, 0x7, 0xd6, 0x6a, 0x3e, 0x92, 0x21, 0xc7, 0xe1, 0x4c, 0x5, 0x87, 0x60, 0x9a, 0x20, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27074, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xe, 0x68, 0x92, 0x42, 0xd4, 0x96, 0x34, 0x4f, 0xe5, 0x8d, 0x47, 0x8e, 0xe, 0xc2, 0x4e, 0x78, 0xa, 0xde, 0xc2, 0xc8, 0x13, 0x7, 0xb4, 0x96, 0x40, 0xd7, 0x5, 0xfb, 0x46, 0xc1, 0xf4, 0xe1}}
 	return a, nil
 }
 
-- 
2.43.0


From e63b6b4333f4055fe64915a395b576a9b333e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 19/44] fix: compile gRPC handlers of rpcs whose lower-case
 name is a Go keyword

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 6 +++---
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 173bc81..cd372ed 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -187,7 +187,7 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 	// {{ ToLower .Service.Name }}
 	return &grpcServer{
 	{{range $i := .Service.Methods}}
-		{{ToLower $i.Name}}: grpctransport.NewServer(
+		{{ToLower $i.Name}}Handler: grpctransport.NewServer(
 			endpoints.{{$i.Name}}Endpoint,
 			DecodeGRPC{{$i.Name}}Request,
 			EncodeGRPC{{$i.Name}}Response,
@@ -201,14 +201,14 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 type grpcServer struct {
 	Unimplemented{{.Service.Name}}Server
 {{range $i := .Service.Methods}}
-	{{ToLower $i.Name}}   grpctransport.Handler
+	{{ToLower $i.Name}}Handler   grpctransport.Handler
 {{- end}}
 }
 
 // Methods for grpcServer to implement {{GoName .Service.Name}}Server interface
 {{range $i := .Service.Methods}}
 func (s *grpcServer) {{GoName $i.Name}}(ctx context.Context, req *{{GoName $i.RequestType.Name}}) (*{{GoName $i.ResponseType.Name}}, error) {
-	_, rep, err := s.{{ToLower $i.Name}}.ServeGRPC(ctx, req)
+	_, rep, err := s.{{ToLower $i.Name}}Handler.ServeGRPC(ctx, req)
 	if err != nil {
 		return nil, err
 	}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 9a674ec..ed4c004 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.074kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.095kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\x12\xc9\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x0d\xf0\x9c\x48\xea\xb7\xe2\xf3\x66\x13\x86\x35\x99\xdd\x91\x05\xc5\x96\x6b\xfd\xf3\x25\x29\x54\xcb\x78\x0c\xb7\x76\x0e\x98\x55\xa5\x24\xac\x14\x50\x50\xb9\xac\x32\x01\xb2\x82\x82\xdc\x51\x60\x65\xc6\xee\x59\xd6\x90\x1c\x68\x99\xd5\x15\x2b\xa5\x80\x39\xaf\x0a\x10\x94\xdf\xb3\x19\x15\x23\x44\x83\xd3\x0f\x0d\x15\x12\x48\x99\x01\xa7\xa2\xae\x4a\x41\x41\xae\x6a\xaa\x20\x61\x57\x5c\x51\x25\x68\x0b\x65\x04\x44\xc0\x03\xcd\x73\xfc\x4b\xcb\x59\x95\x51\x2e\x10\x00\xc2\xcb\xa8\x79\x9e\x57\xdc\x0c\x54\xd0\x46\xea\x05\x41\x4a\xcd\xa1\x6a\x38\x88\xa6\xae\x2b\x8e\x94\x96\x9c\x94\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xaa\x44\x68\xf3\x8a\x17\x44\x8a\x34\x0c\x59\xa1\x7a\xc4\x61\x10\x4d\x57\x92\x8a\x28\x0c\x22\x5c\x3b\x7d\x94\xf8\x53\xa1\xc1\xca\xc5\xf8\x37\xa2\x2a\xf1\xc5\xbc\x50\xef\x59\xa5\xff\x3b\x66\x55\x23\x59\x8e\x0f\x25\x95\xe3\xa5\x94\xb5\xfd\xdd\x70\xf5\x5a\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x6d\xa9\xef\x16\x63\xca\x79\xc5\x15\xa7\xed\x99\xc8\x71\x9e\x7a\x63\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xf0\xed\x39\xab\xd4\xdf\x74\x81\x1c\x8e\xa0\x68\x99\x6d\x36\x47\x41\x5d\xf0\x7a\x66\xa1\xee\xe0\xa9\x1a\x07\x5b\xc6\x05\x95\x24\x23\x92\x6c\x4f\x7a\xf4\x94\x08\xbf\x3d\xf1\x03\xe7\xcb\x75\xb0\xe8\x78\x73\xe1\xd9\x3d\x01\x00\x76\x8f\x8e\x22\x4b\x4b\x6c\xfc\x75\xc2\x14\xd8\xbd\x83\x63\x12\x86\xe1\x3d\xe1\x10\x87\xc1\x7b\x98\xc0\xbc\x90\xe9\x4d\xcd\x59\x29\xf5\xb3\x12\x60\xe9\x65\x55\xd4\x84\x53\xfd\xca\x48\x9f\xf4\xa9\xac\x98\x7e\xd3\x59\x66\xfa\x92\x3e\xdc\x50\x7e\x4f\xb9\x6e\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xb7\xe9\x65\x55\xaf\xf4\x83\x66\xde\xf4\x7b\x4e\xea\x30\x18\x8f\xc1\xec\xa7\x65\x43\x2d\xe3\xb1\xab\x12\x49\xe9\xd3\x52\x8d\x6b\x85\x4c\xfa\xdc\xfc\xc4\xd7\x46\x7c\xa4\x57\xf8\x17\x5f\xd8\x23\x9d\xde\xa8\x1f\xf8\xca\x3b\xa6\xe9\xad\xfd\x8d\x0d\xed\xf1\xc3\xde\xac\x5c\xfc\x8a\xe4\x8d\x5a\xb7\x27\x57\xd2\xaf\xf0\xf7\x0b\x22\xee\xc2\x24\x0c\xc7\x67\x47\xfd\x83\x2b\xab\x93\xc0\xbe\x3a\xfc\x6f\xac\x34\xe8\xb7\x25\x10\xd4\x37\xf7\x94\x8f\x80\xc9\x2f\x04\x34\x82\xce\x9b\x5c\xa9\xa9\x79\x53\xce\x90\x0a\x02\xe4\x92\x48\x28\x29\x6a\xa9\x0a\xaa\x5a\xd9\x06\x50\xe1\xd8\x9a\xf2\x73\xab\x06\x10\xe0\x94\x08\x26\x52\xf8\xaa\xe2\x40\x1f\x49\x51\xe7\x74\x04\xab\xaa\x81\x82\x2d\x96\x12\x6a\x22\x50\x45\x7a\x08\xcb\x0a\x88\x9b\x48\xcf\x53\xf3\x2a\x6b\x66\x54\x20\x38\x52\x2a\x0e\x48\xbf\x21\x65\x96\x23\x8e\x0f\x4c\x2e\x81\x92\xd9\xd2\x68\x7a\x88\xed\xec\x09\x3c\x30\x4e\x33\x68\x6a\x44\x92\x80\xa8\xe9\x8c\xcd\xd9\x0c\x6a\x22\x97\x29\xc4\xdf\x4a\x04\xc8\x04\xd4\xbc\x9a\x92\x69\xbe\x02\x02\x05\x13\x52\x5b\x09\x90\x51\xc1\x16\x25\x0e\x65\xe5\x7d\x75\x87\xea\x9e\x02\x32\x1b\x9b\x51\x67\x55\x28\x14\x29\xc2\x69\x57\xa0\x79\x00\x58\x4b\xc9\x34\x09\xc7\x63\x47\xdd\x59\xce\x68\x29\xbb\xd4\x95\x15\xcc\xaa\x3c\xa7\x33\xe9\x19\x28\xf9\x0a\x66\x55\xa9\xc1\xd1\xcc\x33\x57\x58\x89\x0b\x42\x80\x82\x95\x8b\x5c\x1b\x26\x9a\x56\x0c\x29\x5c\x50\xc4\xc3\xc7\x97\x95\x92\xf2\x39\x99\xd1\xa1\x9d\x40\x60\x6e\xb2\x7e\x23\xa9\xc1\xc9\x5a\xab\x44\x19\x0b\x78\x00\x2f\xcd\x7a\x66\x55\x31\x65\xa5\xa2\x53\x61\x50\xf4\x36\x76\x64\x4c\x29\xd9\xf0\x12\x98\x44\xba\x22\x82\x33\x92\xe7\x94\xa3\xc5\x44\x2c\xb2\x69\xa8\x96\xb3\x43\xd0\x75\x18\xbc\x29\xdd\xfa\x68\xb6\x5e\xa7\x76\x84\x36\x01\x8d\x24\x58\xaf\x39\x29\x17\x14\x3e\x65\x70\x31\x01\xd7\xe7\x85\xde\x32\x94\x63\xeb\xf5\xa7\xcc\x8c\xb1\xb3\x00\x80\x5b\x6a\x6a\x5f\x86\xeb\xb5\x16\xae\xda\xba\xb4\xaf\xc5\xe1\x29\x90\x81\x21\xf6\x16\x91\x80\x37\x69\x3c\x93\x8f\x60\xac\x34\x54\x0d\xf8\x77\x84\x0c\x73\xb6\x5e\x7f\x5d\x21\x62\xf0\x29\x4b\x5f\x6b\x13\xf4\x76\x55\xdb\x05\x26\x10\x6f\xf5\xd0\x86\xa9\xd7\x65\xa4\x05\x5c\x02\xeb\x30\xb0\x76\xab\x7a\x87\x88\xd2\xb4\x67\xe5\x88\x0c\x4e\x9e\x84\x01\x2a\x2b\xce\xe1\x93\x09\x94\x2c\x47\x08\x81\xd9\xaf\x92\xe5\x0a\x48\x18\x6c\x42\xfb\xce\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x7f\xad\x28\xe6\x6d\x47\xc0\xe9\x07\x5c\x88\x81\x90\xc6\x87\x76\x3b\x0c\x82\x7b\xb7\x77\xc2\xdf\x3b\x44\x4d\xa1\x92\x84\x41\xcf\xae\xed\x6e\x1b\xee\x9b\x7d\x7b\xaf\xb7\x23\x40\xb6\x6e\x75\xb3\xbf\x37\xa8\x1c\x9f\xe6\xf9\xd5\xe3\x8c\xd6\x52\xe9\x29\xa1\x45\xac\xa3\x94\xd2\x50\xe8\xb2\x98\xb3\x69\x1b\x04\xa8\x6d\x24\x08\xc5\xb3\x09\x1c\xa9\x5f\xb0\x2c\xcb\xe9\x03\xe1\xda\x0b\x7c\x23\xac\x5f\x88\x4e\x50\x5d\xe7\x2b\x14\x31\x28\x36\x25\x02\x2f\x5c\x6f\xe5\x75\xd1\x7b\xca\x57\x6e\xdb\xf0\xbc\xa0\x04\x31\x6e\x9b\x82\xf7\xaa\x46\xad\x41\xf2\x7c\x35\x72\xfd\x04\xcc\x48\x09\x53\xaa\x74\x0d\xcd\x70\xd8\x74\x05\x25\x92\x5d\x56\xf8\x9e\x3e\xce\xf2\x26\xa3\x99\xf6\x02\xa7\x14\x51\xc0\x35\xd7\x34\x4b\x77\xa8\x11\xb7\x38\x8d\x20\xba\x91\x44\x36\x22\x1a\x41\x74\xcd\xca\x45\x94\xb8\x73\x7f\xe6\x08\x92\x0c\x8e\x77\x18\x7a\x54\x19\xb5\xd8\xa4\x69\x2a\x94\x59\xa0\x98\x87\x95\xe6\xf5\xc5\x04\x0a\x52\xbf\xd5\x4d\xef\x34\xf9\xd7\x1b\x64\xaf\xed\x03\xd3\x73\x5a\x82\x20\x88\x3c\x36\x8a\x2e\x60\xbd\x19\x85\x81\x6f\x46\x6e\xc2\x30\x40\x5d\xff\x1e\x51\x41\x30\x1a\xa4\x43\x0b\x67\x62\x73\x78\x3f\x82\xea\x0e\x9b\x2d\x62\x6f\xe9\xe3\xbb\x27\xf0\x49\x75\x87\xd8\x06\x41\x4d\x4a\x36\x8b\x5b\x0b\x6f\x1e\x47\x57\x16\x84\x5d\x37\x7c\xf1\x99\xf8\x02\xb2\x8a\x0a\x28\x2b\x09\xf4\x91\x09\xf9\x04\x04\xa5\xfe\xc6\x3b\x9f\x52\x99\xf4\x88\x54\x92\x18\x7e\xce\x68\x4e\x25\x8d\x2d\x06\xaa\xad\x5d\x00\x2b\x67\x2d\xfa\xb6\x0f\x1c\x4f\x28\x36\x57\x20\x26\x13\xe8\x90\x4c\x41\x08\x82\x5e\x51\x0a\x13\x0f\xf3\xb8\xb7\x0b\xe2\x1e\x6c\xb6\x49\xae\x8f\xdd\x77\x64\x4a\x73\x9a\xb5\xdc\xa0\x43\x28\x0b\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x58\xd2\xd2\xb5\x56\x1e\xbb\x1a\x60\x9a\xeb\x46\xfa\x94\x99\x83\xd0\xe8\xce\xa0\xe3\x32\x44\x07\x77\xd8\x0c\x8d\x1a\xce\x66\xca\xcc\x6a\x97\x01\x0f\x4b\x36\x5b\xaa\x33\x24\x68\xd9\x87\x82\xd1\xe4\x66\xb4\xb5\x63\x2a\x6e\xf4\xf8\xee\xaa\xf0\x90\xc4\x9a\x81\x47\xbb\x52\xb8\x47\x30\x87\x43\xeb\xfa\x68\xd9\xb4\x83\xd4\xc8\xac\x53\x51\x9c\xd3\x19\x65\xf7\x28\x9a\xa8\x5e\x62\x35\xef\xac\x3b\x85\x1b\x4a\x1d\x18\x0f\x8a\x6a\xb0\x86\xa8\x41\xf8\xea\x11\x11\x45\x8e\xcc\xa8\x24\x2c\x17\x68\x27\xdb\xe3\x84\x40\xac\xb1\x4b\x72\x26\x57\xe9\x3e\x11\xd2\x59\x7b\x5c\xfc\x08\x8a\xfe\xaf\x9c\xf9\x9f\x23\x67\x3a\xc3\x46\x70\x92\xd8\x39\x3e\x40\x71\xac\xeb\xf9\xf5\xeb\xeb\x4b\x5c\x27\xe5\x27\xfb\x9e\x68\xc6\x79\xc3\x31\x5c\x2b\x5a\x63\xc0\xed\x0f\x90\x7b\xc2\x72\x32\xcd\xa9\x76\x1b\x16\xaf\xaf\x2f\x61\xc0\x19\x30\xc7\xa9\x0b\xd9\x79\x88\xa2\x95\x0d\x23\xa8\x94\xed\x20\xf0\x3c\x74\x62\x31\x8a\xbd\x29\xd7\xa6\x45\x32\x34\x11\x6e\x97\xf0\x3a\x0a\xe4\x89\xb7\xef\x86\x21\x21\xf7\xf6\xb5\x3e\xa3\xf3\x8a\xd3\x18\xb1\x7d\x61\x62\x4a\xb7\x95\xb1\x3e\x93\x11\xee\xda\xd6\x3c\x13\x34\x9c\x68\x99\xc5\x9d\xd7\x6e\x3d\x69\x9a\x26\x2a\xd0\xb1\x5e\xc3\x6d\xf5\x5d\xf5\x40\x79\xcb\x88\x48\x2a\xdc\x5c\x6b\x1a\x7e\x8e\x18\x61\x23\xe5\x6b\x74\x93\x0e\x72\xef\x7a\x6d\x61\x3a\x96\xbb\x80\xee\xb2\x5c\x88\x26\x46\x86\x76\xa4\xef\xe3\x52\x34\x45\x82\xe7\x2a\x52\x8e\xeb\xf7\x7a\x18\xeb\x58\x75\xb8\x2a\x7b\x3b\x18\x5f\x07\x7b\x74\x28\x91\xa6\x29\x0e\x43\xda\x6d\x31\x3f\x0a\xdf\x76\xc1\xdb\xae\xb3\x33\xce\xfb\xf7\xdb\x19\xfa\x5a\xcb\x79\x70\xfe\x04\xee\xea\x0e\x91\x01\xb6\xa8\x6c\xe2\x21\x9e\x41\x6f\xdc\x2c\x13\xa8\x40\x51\xeb\xe1\x28\xab\x76\xb9\xc7\xaf\xf4\x20\xaa\xea\xb0\xc5\x02\xce\xda\xa9\x92\x16\xfc\x01\xff\x17\xdd\xa3\x9f\xd6\x01\x7e\x8f\x3e\x52\xdd\x71\xa1\x76\x28\xa9\x56\xa1\xb8\xc9\x77\xaa\x4e\xf4\x84\xeb\x8f\x74\x82\x0d\x85\x35\xcb\x1f\x26\xef\x78\x0c\xfb\x4e\x07\x30\x14\x87\x8e\x27\x54\x8c\x38\xd5\x03\x4c\x8f\xaf\x70\x7f\x54\x9c\x08\x73\x3a\x94\x4b\xa1\xc3\x48\x46\x84\xee\xb2\x99\xf5\x76\x31\x98\x83\xb1\x2a\x7e\x9e\x55\x05\x61\xe5\xbe\xce\x29\x5c\x73\x56\x10\xce\xf2\x95\x0d\x6f\xf9\xb1\x30\x2d\x91\xf7\xad\x23\x7e\xbf\xcb\x1c\xb8\x96\xd7\xf4\x43\xcb\x8c\xca\xed\xf6\x9e\xba\x81\x0f\xe5\x68\x9b\x31\xc7\x38\xda\x6e\x27\x3f\xec\xd9\xa6\xab\xf2\xe8\x6d\xda\x2b\xa3\x7a\xf7\x49\x8f\xb0\x5d\x86\x36\xea\xf0\x16\x98\x29\xd4\x86\xed\xd9\xd6\x3a\x5f\x1d\xb5\x4f\x7b\x17\xd2\xb7\x51\x7d\x91\x90\x7d\x3b\x25\x6a\xdc\x2a\x3b\xea\x88\x73\xe4\x6d\x96\xa8\xfb\x76\xeb\x1b\x9a\x63\x58\x3d\xd4\x8c\xd6\xab\x48\xfb\x05\x50\x91\x81\x4d\xe3\xa4\x2f\x9e\x27\xdb\x1d\x10\x5f\x14\xa3\x77\x23\xb8\x6f\x2d\xbe\xc2\x99\xaa\xf7\x9d\x10\x8c\xca\x46\x53\xb8\xa3\x2b\xb5\xdd\x19\xda\xb4\xd3\x4a\x2e\x91\xc6\x76\x16\x93\xc7\x85\xf8\x2e\x31\xee\x07\x76\xcd\x73\xc8\x71\xbf\x0c\x14\x62\x9c\x2e\x15\x6e\xbd\x24\x65\x55\xb2\x19\xc9\xbf\xa1\x24\xa3\xfc\x17\x74\x65\x7d\x13\x9c\x48\x54\x26\x08\x2c\x8d\xab\x67\x41\xcc\x66\xd4\xc6\x3e\x28\x93\x4b\xca\xcd\xcc\xd8\x8e\xa4\x98\xb8\xb5\x7e\xcf\xe4\x52\xe5\x21\x90\x44\x23\xb5\xd6\xb7\x5f\xbe\x4b\x0e\x76\x1c\xc0\x2e\xbe\x4b\x5a\x08\xc6\xea\x37\xdb\x37\x93\x8f\x4a\x07\x5b\x1b\x70\xff\x3f\xb5\x8f\x3a\xd2\x7c\xb2\x5d\xf9\x92\x3e\x78\xa3\xf5\xf4\x2a\xeb\x60\x42\x47\x30\x25\xb3\x3b\xdc\x9e\x95\x3d\x33\x3a\x44\x8f\x6b\x2d\xa9\xca\x78\xa4\xf0\xad\xc4\x7d\x34\xc1\x7e\xc3\xae\x6c\xca\xd0\x67\xb3\x5b\x60\x62\xd9\xb2\x82\x8c\x91\x5c\x07\xbc\x73\x22\x29\x87\x19\x66\xa3\xd0\x09\xa7\x3e\x4c\xcd\xa0\x1d\xec\x62\x6c\xd6\xea\x33\xd5\xf8\x5e\x56\x65\xb9\xc7\x38\xd5\x9d\xac\x71\x1a\x0f\x58\xa7\xfe\x91\x43\x0b\x61\x3b\xd6\x1a\x78\x6f\xeb\xbb\x05\x9e\x34\x1b\x72\xed\x16\x59\x04\xbb\x5e\x8d\x1f\x60\x6d\x65\x60\x70\x4f\x78\x9f\xe8\xb1\xa6\xde\xae\x4b\x1a\x06\xeb\x7e\x83\xd2\x0d\x99\xec\x5a\x96\x86\x6a\x8a\x3d\x91\x50\xd6\xf3\x34\x8b\xd8\x6c\xd2\xbe\x08\x70\xe4\xfa\xd9\x39\xa2\x7d\x96\x65\x6b\x7a\x3e\xa7\x87\x4c\xcf\x03\xd2\x4b\x87\xdb\x82\xd6\x36\xc7\xc7\xc4\xd1\x20\x56\x7e\xa5\x22\xb2\xb1\x53\xdb\x5f\xf6\x87\x3b\x40\x76\x90\x38\x68\xaa\xc3\xb9\x01\xe5\x70\xb6\x63\x2f\x30\xef\xb1\x87\xe6\xa3\x76\xde\x60\x63\x85\x2d\x0a\x59\xa4\x01\x98\x13\xf5\xe3\xcd\x97\x3d\x7a\xf1\x39\x3d\x46\x2f\xee\xd7\x74\xc7\x9a\x2f\x46\x07\x0d\xe8\x45\x2d\x14\xcc\xa9\x7d\x4e\x4f\xd4\x8b\xb8\x98\xd7\x0a\x99\x23\x15\x23\x76\x75\x46\x0c\xaa\xeb\x93\x54\x63\x9d\xaf\xfa\x74\xa3\xbf\x6d\x3f\xde\x9c\x19\xb6\x3a\xaf\xca\x23\xac\xce\xc3\x1b\xe2\x19\x9f\x7b\x76\x78\xaf\xd5\xd9\xd9\xb5\x7d\xeb\xe8\x37\x66\xcc\x12\x8f\xdb\xb2\x53\xd3\x3b\xfb\xad\x4e\x83\x85\xd2\xc6\xe2\xb6\xf2\x0d\x19\x7d\x52\xfa\x34\x81\x99\x07\xcf\x89\x66\xd4\x3d\x50\xe2\x3b\xba\x12\xf0\xf6\x9d\x0d\xff\x1d\x80\x77\x54\x7a\xac\xc8\xe0\xec\x90\x11\xa5\x74\x43\x4d\x18\x6f\x27\x0f\x03\x1b\x0c\xbc\x6b\x4d\x2b\x85\xde\xda\xc4\xc8\xee\x6d\x20\x70\x26\x1f\x53\x45\x93\xf8\x2e\x49\x4d\xd0\x33\x79\x02\x36\x20\x18\x68\xc0\x2e\x2a\xa2\x1e\xb5\x21\xe3\x82\x60\x28\x44\x11\xa6\x6a\xeb\x58\x6d\x67\x45\x86\xc1\x35\xbb\x80\x9f\x57\xac\x8c\xcf\x8a\x6c\xd4\xbe\xba\xc6\x31\xb1\x1a\x89\xa1\x95\xc4\x82\x33\x94\x41\xab\xc6\x44\xd6\xf4\x4e\x1e\x1b\x37\xfb\xe6\xf6\xf6\xda\xf8\x19\xf6\xdd\xe1\x7f\xe3\x30\x54\x49\x7b\x4d\xe5\x52\xb1\x17\x4c\x20\x22\x75\x9d\xb3\x99\x2a\x53\x51\x95\x7f\x4f\x60\xb6\x24\x5c\x50\x39\x69\xe4\xfc\xfc\x67\x91\x0b\xb7\xe1\xac\x26\x74\x60\x72\xf3\xc8\x58\x4b\xf3\x46\x9d\xd9\xc3\x61\x38\x04\x56\x95\x50\x73\x9a\xd1\x39\x2b\x69\xa6\x2a\x2c\x84\x39\x73\x5b\xd3\x1c\x0c\xbe\x75\x0b\x7c\xba\xc1\x37\xbf\xf4\xc3\xda\x32\x6c\x0e\xa9\x82\xaf\xcc\x7e\x4f\x6e\x6d\xc5\x81\x90\x77\xde\xbe\x1b\x86\xae\xf6\xbf\xaf\xd9\x44\xe4\xf4\x1c\x68\xd7\x8a\x4e\x40\xae\x7f\xd0\x15\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\xe7\x92\xf2\x78\xbb\x45\x5e\xb6\x5b\x1b\x7b\xdb\x9c\x28\x40\xbb\xab\x3c\x2a\x1c\x68\xa2\x44\x2a\xf4\x57\x20\x61\x8a\xe6\x11\xcd\xa9\xd7\x55\x83\x38\x24\xa1\x67\x51\x98\x6c\xc6\xc5\x64\x90\xcc\xae\xeb\x14\xeb\x46\xca\x05\x02\x34\xc3\xd2\x67\xfa\x95\x89\x75\x17\x76\x5c\x8c\x46\x9a\xe9\x8e\x15\xbe\x53\xf8\x2b\xb8\xad\xde\x60\x05\xe3\x66\x13\x25\xe9\x35\x91\xcb\x4e\x1f\x7c\x71\x4b\x8b\x1a\xed\x69\xd5\xc3\xb2\xd3\x40\x3d\x98\x0a\x36\x76\xa3\x8d\x06\xa3\x1d\x03\xc7\xd9\x75\xb8\x3c\x6f\x4a\x95\x6d\x71\xea\x41\x77\xd4\x3b\x8a\x1d\xbf\xd6\x49\x33\xab\x86\x75\x73\x5f\xe0\x31\x50\x79\x84\x36\x2e\xe7\xff\x34\x42\xa3\x30\x46\x95\xcf\x34\x3a\x3b\xa7\x3c\x0e\x6d\x16\xd8\x3c\x9b\x9d\xf1\x7b\x6c\xe7\x23\xf4\x5a\x32\x3a\x27\x4d\x2e\x51\xdb\x69\x06\xc1\x13\xa9\xc2\x92\xd5\x1c\xb6\x65\xc1\x08\x08\x4c\xab\x4c\x39\x8e\x28\x1b\xb4\xd9\x8f\xee\x63\xa4\xe6\x89\x9c\xc7\x79\x8f\x52\x16\x41\xa9\xf7\xa9\xc2\x2e\x4e\xb4\x5f\x43\x40\xa8\xdc\x37\x20\x3d\x10\xd4\xff\xff\xf2\xcb\x14\xbe\x35\x79\x32\xec\xe9\xc7\x53\xf5\xb9\xa1\x5c\x95\x56\x63\x8f\x9a\x57\xf7\x0c\x5d\xe2\xa5\x6a\xc1\xb2\x81\x3c\xc7\x64\xbc\xc2\x56\xa7\x27\xb1\x5f\x6b\x93\xf9\xa0\x11\x8a\x07\x1d\x57\x91\xbe\x20\x5c\x2c\x89\x2a\x09\xb3\xf8\x17\xfa\x15\xe6\xf3\x45\x33\x9b\x51\x9a\x09\xed\x83\xfd\xfc\xe6\xd5\x4b\x53\xa1\x9d\xd9\x72\x6a\xeb\xc4\xa9\xb5\x3a\x74\x30\x55\x3a\xbc\x2c\x9d\xfe\xc7\x02\x79\x3e\xb2\xae\xa1\x5b\x59\xdb\xd8\x81\x06\xac\x14\x92\x92\xcc\xd2\x4c\x0b\x49\x5f\x42\xf4\x19\x22\xae\x92\x64\x04\x0f\xba\x00\xae\xcb\x06\xca\x66\xc4\x5d\x1d\xc1\x7b\x3c\x7e\x3e\x49\xb4\xf8\xc1\x6c\x64\x4d\xf9\x5a\xed\xe2\x05\xae\xc5\x6e\x28\x5a\x22\x6c\x6e\xa9\x85\x04\xd4\x8a\x16\xbb\xc4\x5d\xda\xb6\x7a\x96\xcd\x01\x9b\x9e\xa9\x29\xcd\xd0\x2b\x1d\x66\x75\x80\xec\x38\x24\x77\x9c\x3c\xb1\x33\x60\xb7\x89\xa7\x73\x11\x6d\x98\x38\x70\x36\x50\x10\x3c\xa4\x9a\x6d\xe2\x24\xbd\xa1\x32\x8e\x8c\x20\x3c\xbf\x5d\xd5\x34\x1a\xf9\x2a\x4f\x2f\x60\x69\x99\xcc\xc7\xbf\x2b\x1e\x2c\x1f\xb6\xeb\x40\xab\xc3\x33\x39\x2c\x0c\xd3\x53\xc4\x8a\xb0\xc1\x36\x2e\x77\xa3\x9e\x9e\xe9\xd7\x54\xc6\x77\x36\x6b\xb8\x09\x03\x75\x34\x2e\x74\xc9\x6a\xaa\xd9\xe1\x5b\x34\x1d\x4b\x92\x7b\x4a\x42\xe1\x2e\x66\x7b\xb0\xf6\xd8\xac\x45\x5c\x01\x9f\x80\x98\x19\xc8\xd8\x6c\xdc\xc7\x87\x54\x31\x85\xc1\x18\x3b\x26\xee\x65\x8c\xd4\x4e\x50\xde\xb4\x7c\xa7\x7d\x19\x1e\x4f\x9b\x39\xbc\x7d\x87\x55\xb8\x89\xe1\xf5\x75\xa8\x6c\xb5\x07\xf0\x59\xc8\x45\xc7\x2d\x9f\xbd\x29\xcd\xce\x22\x84\x11\x7c\xfe\x90\x3c\xd9\x8e\x9e\x6b\x2b\x45\xb0\xdf\x52\x98\xc0\xcf\xfe\xef\x9f\xff\x99\x66\xa1\x9c\x96\x38\x26\x81\xbf\xd0\x6d\xd8\x35\x40\x34\x26\x30\x6d\xe6\x6f\x2f\xf0\xe5\x3b\xa3\xe6\x8c\xac\xc4\x92\x12\x45\xb7\x79\x1c\x59\xe9\x00\xb8\x28\x95\xe5\xbd\xc0\xc0\x17\x26\x79\x6b\x34\x77\xa0\xac\xca\x73\xe4\x2b\x67\xc8\x63\xc7\x68\x84\xc0\x4d\x06\xd7\x40\x35\x55\xc1\x2f\xe9\x43\xfc\xa0\xcf\x85\xa2\x91\x92\xa1\xfe\xda\x6d\x4d\xc1\x3a\x0c\x54\x2f\x7c\x46\xf9\xf2\x6b\x9c\xe5\xc2\x08\xd0\x5f\x1b\x71\x8e\xfb\x6e\x7a\x11\xc9\xc4\x9c\xe1\xe5\x91\x25\x75\xd2\x50\x09\x52\x6f\x73\x5b\x37\x43\x00\x53\xf7\x3c\xec\x65\x97\x63\x8a\xb9\x53\x9d\x88\xf2\x26\x75\xa8\x2a\xb4\xf0\x82\x82\x9d\x0a\x67\x0a\x03\x2b\x7b\x01\xfc\x54\xbf\x33\xc9\x2d\x8f\xc4\xcb\x16\x68\xe2\xc9\xbc\x38\x81\x6e\xd1\xdc\x32\x6d\x67\x18\x18\xdd\x1e\x2b\x7c\x69\xce\x4e\x07\x84\x41\x2a\xec\x44\xde\xb7\x23\x0c\x07\x6d\x12\x2f\x48\x75\xc0\x28\x71\x41\x89\xbd\xda\x7f\xdb\xc9\x55\xd8\xf7\xa7\x56\x54\xb2\x55\x5f\xf7\xc1\x31\x28\xfc\xce\x8d\xae\xf1\xfd\x57\x3b\xcf\x35\xe1\xb4\x94\xc6\x27\x74\x7c\xaa\x4a\xd1\x50\x1d\x21\x56\xf6\xad\x82\x8c\x1c\x7c\x28\x72\x1f\x78\x21\x8a\xbd\xcb\xea\xf5\x79\xe1\xcc\x28\x18\xd5\x65\xd8\xdf\x0d\x32\x3a\xa7\x1c\x78\x8a\x52\x3b\xbd\xc4\x10\x27\x0a\x20\x25\x31\xd0\x17\x6e\xdd\xdf\xad\xb5\x1a\xc8\x28\xb9\xd1\x08\xc2\x03\xef\x72\x74\xa6\x82\xff\x35\x25\xd9\xd3\x3c\x8f\x35\xf0\xe3\xaa\x1c\x6d\x59\xff\x1c\x15\xde\x08\x22\x23\x09\x38\x2a\x5b\x6b\xf0\xe0\xca\x2c\x39\x23\x23\xa9\xb7\x04\xd1\x97\x6a\x6d\x41\x63\x85\x1a\xba\x46\x17\x13\x70\xd7\x58\x5a\x71\x67\xec\x3c\xd5\x3d\x78\x9a\xe7\xd5\xc3\x35\xe1\x92\x91\x1c\xa3\x6a\x92\x37\xc6\x28\x7c\xce\xc4\x8c\xf0\xec\x4d\xa9\xae\x1c\x5d\xb4\x2d\xb6\xfc\x03\x97\x3e\x01\x7f\xc2\x1d\x91\x8a\x59\xc9\x1d\xa1\xda\x2f\x56\x87\x05\x6b\xaf\x68\x35\x68\x74\x88\xe9\x0e\xec\xba\x87\xac\x86\x7a\x1f\x25\x73\x35\x41\x02\x4f\x21\x3e\x23\x99\x61\x07\xd3\x86\x08\xb4\x68\x39\x6f\x1d\x3d\xca\x6b\xc2\x49\x21\xac\xbb\xf2\x2b\xc2\x45\xcc\x71\x0f\xf1\x5a\x47\xdb\x8e\xbe\xfd\x87\x86\xf2\x55\xdb\x9d\xa7\x6f\x5e\x7f\x97\xfe\x12\x5f\xc6\x76\x80\xd7\x25\xf4\x7d\x18\x5d\xd9\x7a\x31\x69\xb9\x56\xdd\xc0\x30\x0e\x8c\xaa\x97\x29\x6d\xb7\xf4\xbb\x4a\x1b\xd6\x10\xa9\x45\xea\x3e\x18\x67\x55\x50\xd2\xaf\x69\xa9\x26\x75\xbb\x89\xde\x4d\x7f\x78\x77\x3f\x0a\xaf\x4a\x5a\xcd\x77\xf0\xa0\x1f\x76\xf1\x50\xcb\xfa\x31\x88\xb8\x63\xf5\x39\xa7\x1f\xda\x54\xb7\x71\x5a\x54\x24\xd9\x76\x6d\x23\x83\x3d\x0e\x51\xaf\xc4\x1c\x4a\x72\x6a\xf9\x28\xac\x77\xe0\xf4\x3a\x11\x4a\x7e\x6e\x7b\x03\xda\x37\xe2\x27\x24\x30\x7b\x10\xec\x93\x7d\xbd\xb6\xf5\x50\x4e\xd3\x99\x48\x43\x82\xe2\xc5\x8e\x98\xd8\x16\x12\x4e\x16\xbc\x11\xf4\x1a\x05\x0c\xca\x4b\xe1\x8b\x8f\x37\x82\x5e\x95\x4d\xf1\xb2\x29\xa6\x94\x8b\x8b\xb6\xe1\xaa\x60\xf2\x4d\x59\x57\x75\x83\x2e\x71\xe6\xc4\xca\x26\xec\xc8\xd3\x16\x37\x8b\x8e\xab\x55\x4f\x63\x85\x6a\xfa\x82\x0a\x41\x16\x34\xd9\x57\xf6\x60\xd9\xe0\xfd\xc8\x48\x2b\x67\x4e\x2a\x4b\xca\xeb\xe5\xe7\x60\x5d\x69\xa3\x30\xc6\x40\x5f\x0c\xa5\x3f\x8e\xb8\xa3\x85\x86\x92\xb1\xad\xed\x6e\x4d\x71\x25\xec\xf6\xa5\x5f\x11\xf0\x6e\xea\x75\x49\x04\x2c\x49\xa6\xc7\x0e\x25\x5b\x55\x8a\x2f\xc3\x0a\x4e\x86\x51\xe1\x96\xbf\xfd\xbb\xbf\x72\x49\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\xe3\x45\x66\xc6\x68\xab\x0b\x2b\x5a\x74\x8c\x13\x8a\xde\xb8\xa8\x34\x90\x6e\x46\x77\x6f\x2e\x77\x6f\x86\xf6\x6e\xe4\x28\xe4\x79\x2a\x7b\x87\x6c\xe1\xaf\x92\xb9\xbb\x30\x50\x78\x21\xb9\x9b\x92\xb6\x77\xac\x66\x4b\x94\x65\xa9\x6a\x21\xb9\xa8\x80\x64\x99\x39\xc3\x4a\xda\x43\xc3\xf3\x70\x7f\x4a\x39\x32\x5d\xcf\xf1\x26\xf2\xc8\x08\xf1\x6b\x22\x97\xc9\xa1\x81\x6e\x57\xb0\x32\x1f\x79\x0e\x85\x48\x94\x7c\x74\xee\x19\x41\x98\xa4\x89\x7d\x77\x42\xee\xd9\x1b\xdd\x86\x58\x7b\x52\xcf\x25\x60\x4f\x23\xbd\x20\x67\xf7\x68\xb5\x12\x69\xa8\x56\x54\x52\xc5\x17\x30\x7c\x40\x4a\xbc\xc8\xf5\x3d\x56\xe5\xd7\xfa\xca\x98\x7e\x87\x72\x72\x56\x15\x54\xdf\x64\x68\x27\xc9\x98\x98\xe1\x45\xfc\x15\x88\x95\x90\xb4\x18\x81\x50\xa5\xe2\x39\xbb\xa3\xf9\xca\x32\x1d\xb2\x11\x44\xcb\x4a\xc8\x0b\xe4\xe8\xc8\x08\xd0\xce\x0a\x62\x37\x95\xad\x36\x1e\x8c\xdc\x9e\x9e\x99\x66\x73\xf8\xc4\xb2\xdc\x37\x44\x5c\x73\x3a\x67\x8f\x6e\xc6\x11\x44\x78\x2a\x23\xed\x91\x3b\x3c\x26\xfa\xf5\xc5\x78\x1c\xc1\xff\x71\x94\x40\xae\x0c\x1a\x27\x05\x1b\x9e\xa7\xd7\x68\x9d\x38\x68\x47\xd7\x78\xa1\x71\xd1\x84\xe6\x2a\x2f\x7a\x96\x3d\x1e\x87\xc9\xaf\xea\x3b\x0f\xd1\xcb\x4a\x6f\xa4\x17\xde\xd6\xd5\xf7\x8a\x20\x3a\x18\x84\x80\x1e\x2a\x7e\x37\x02\x1d\x32\x07\xa3\xe9\xd1\xf1\xc3\x4b\x79\x5c\xdb\x9b\xba\x95\x21\x09\xa3\x36\x6c\x8b\xc5\x63\xc1\xf1\xbe\x50\xb0\x5e\xe3\x15\xdf\x6d\xe7\xc7\x20\x8d\xad\x2a\x02\x68\x8d\x0d\x84\xc4\xca\x8c\x3e\xee\x8e\xf8\xd2\x8e\x31\xd9\xfd\x6d\xaf\x62\x5f\x72\x1f\x8d\x0d\xf5\xdf\x60\xcf\xb8\x9e\xeb\xbd\x5e\x86\xdf\xe4\xec\x07\xc3\xc6\xc6\x82\x0c\x66\x55\xbd\x7a\xf3\xfa\xbb\xb8\x19\x81\xdf\xff\x19\x11\x14\xc5\x07\x86\x8f\x6d\xd7\xd6\x3a\xd8\xc5\xaa\x6b\x97\x76\x63\xc4\x86\x32\x3d\x05\x00\x3b\xd9\xfd\x60\x3b\xc1\x6f\x6d\xdb\x76\x37\x3b\xbf\xdb\x9f\x4e\x5c\xf5\x66\xfa\xf7\xee\x3b\x9c\xff\xa9\x76\x7e\x28\x90\x6e\x2a\x09\xb6\x89\x68\x9b\x4d\x71\xc4\xde\xf5\x7a\x15\x06\x4a\xf2\xd8\x7d\x9c\x12\x41\xe1\x0c\xcf\xf0\x9b\xd7\xdf\x8d\x54\x72\xc9\xa8\xd6\xc4\xbd\xc6\xf3\x5b\xa2\x5d\x70\x31\x81\x33\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\x63\x8b\x09\x30\x5c\xca\x47\x9b\x1a\xbd\x41\xfb\x76\xa6\xea\xe0\x1b\x6e\x42\x35\xc8\x8e\xf6\xe0\xca\x0a\xea\x26\xcf\xd5\x7b\xa3\xe7\x68\x86\x16\x86\x80\xaa\x41\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xc2\x9a\xb0\xbe\x03\x8a\xb6\x82\x09\x77\xa4\x00\x2f\x2b\x69\xee\xf0\x22\x48\x84\xa5\x24\xc5\x92\xdc\x53\xb0\xdf\xe6\xd8\x6f\x92\xa8\x79\xa6\x2a\x5b\x65\xae\xb1\xa9\x1b\x3b\x28\xf9\x2d\x6a\x78\x23\xda\xc4\xf7\x89\x2d\x68\x52\xb6\x07\xae\x6a\xe5\x02\xd5\x2e\xb5\xe7\x5f\xb2\xa3\xdc\x29\x5c\x93\x5a\xee\xd2\x4e\xa7\x93\xbd\xeb\x24\xc3\xfa\xc0\x8f\xf8\xf4\x74\x32\x19\xb7\x3d\x97\x30\x8f\xb0\x0e\x7f\xb2\x84\xb2\xb3\x78\x4c\xe4\xd7\xcf\x23\x3b\x9d\xa1\xf3\xbe\x09\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x41\x81\xbd\x1d\x92\xea\x15\x36\x7b\x23\x52\xdb\xfe\x95\x09\x47\x69\x6b\x6c\x3b\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x5a\xdf\x67\x3b\x24\x65\x5e\xa3\xe3\xab\xcd\x3c\x93\x25\x71\x2d\x68\x50\x13\x15\x0e\xf8\x7f\x5f\x7e\xe9\xa7\x8b\x46\xf0\x60\x72\x22\x2a\xe0\x59\x73\x8a\x46\x0e\x51\xe7\x81\x94\x0a\x96\x32\x0a\x14\xa3\x12\x29\xf1\x2b\x0b\x78\x7e\xf4\x2a\xfc\xf3\x67\x02\xd8\x50\x68\x17\xa6\xc5\xd1\x22\x71\x30\x64\x66\xcb\x43\x7a\x42\x66\xbd\x64\xdf\x1f\x31\xd3\x93\x9e\x1e\x32\x3b\x25\x02\x36\xc1\x2e\xe9\xd5\xab\xaf\x06\x83\x60\x18\xc5\x6e\x63\xe3\xc8\x18\x8a\x04\x80\x74\x5c\xf9\x51\xaf\x2d\xf3\xa7\x0f\x16\x06\xd4\x7a\xe2\x69\x0e\xa8\x01\xa7\xe1\x71\x2f\x17\x01\x9f\x74\x12\x1f\xaf\x7e\xb1\x77\x8a\x79\xbc\x9d\x89\x48\x46\x10\x79\x3c\x73\x01\x5f\x7c\x96\x7d\x11\x8d\x3a\x73\xb8\xb9\xd1\x1c\xc1\x05\x1f\xe2\xe6\xf0\xe4\xb8\xde\x60\x58\x6f\x28\xaa\xb7\x09\x8f\x8f\xe9\x89\x3a\x79\x72\x78\x13\x7c\xa2\xd8\x05\x9b\x4e\x9f\xb7\x35\xd0\x41\x37\x2e\xe3\x0b\xa0\xab\xf2\x44\x01\xe4\x7a\x7a\x86\xc1\x8e\x49\x70\x6e\x44\xd5\x11\x26\xd4\xde\x58\x90\x8b\x9e\x87\xce\xdb\x35\xe1\x20\x20\xc7\x07\xcc\xd5\xf7\x26\xf0\xe4\xdf\x13\xce\xaa\x46\x00\xaa\x13\xb4\xc2\x50\x2f\x07\xe3\xf1\xae\xf2\x8d\xd1\x8e\x18\x81\x0a\x98\xe9\x9c\x36\x1e\x92\xc4\x8a\x82\x23\x96\xb5\x5f\x16\xa8\x2e\x03\x25\x64\x2e\x74\x84\x1f\x8d\xba\x27\x39\xee\x45\x14\x99\xc8\xa4\x7e\xb5\xff\x7b\x01\x5b\xc4\x30\xb3\x69\x26\xb7\x11\x4e\x4e\x3f\x84\xe1\x96\xfa\x1a\x74\x8d\xb7\xfb\x0d\xfb\xde\x3a\x2a\x71\xa3\x64\x36\x5e\xaa\x97\x4b\x0c\xfc\x92\x82\x4a\x4c\xdb\xe0\xcd\x6f\xb9\x44\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xeb\x5a\xa4\xa0\x2a\x3c\xd4\x89\x75\xe2\x2c\x37\xfa\xbd\x0b\x76\xda\x8e\x9b\xed\x5b\xa4\x68\x32\x46\x63\x85\x7f\x9f\xb7\x87\xb8\xec\x4f\x1e\x6c\xcb\x20\x94\x73\x55\x93\x67\xe5\x17\xb2\x3d\xbd\x7a\x95\x9f\x7d\x88\xb4\xf1\x69\x25\xa8\xa6\xca\x6b\xf2\x60\x8c\xcc\xc6\xfe\x76\x6d\xae\x01\x7f\x6c\x51\x4e\x31\x5e\x97\x74\xaa\xe0\xa2\x37\x62\x8d\x02\x4e\x16\xb5\x49\xcf\x9a\x0d\x96\x45\xdd\x25\xe7\x50\xec\x1a\x2c\x1d\xcf\xe1\xb8\xb0\x31\x9b\xab\x03\x61\xba\xbd\xa6\x35\xc5\x18\xa3\x1d\xf6\xad\x78\x46\x3c\x89\xda\x42\x8e\x2f\xed\x57\xf7\x4c\xcf\xaf\x2b\xec\x05\x91\xdd\xfe\x28\xb1\x23\xf4\x52\xdf\x46\x2e\x44\xfd\x4b\x17\x8f\x37\x15\xd9\xef\x34\x0b\xa7\xae\xc7\x25\x29\x68\xde\xd6\xa1\x1b\x3e\xc8\x85\x7b\x36\x06\x9f\x77\x39\x63\x68\xbc\xcd\x87\x18\x34\xd2\xa7\x59\x16\xef\x41\x65\xe4\x7d\xaa\x2a\xbe\xc7\x98\x57\x9b\x37\xe9\x70\x23\xe2\x44\x73\x0c\x14\xcf\xa1\xe2\x10\xa3\xbe\xdc\x21\x5a\xb2\x4d\x57\x8b\xbf\xa2\xbb\x69\xbb\x91\x84\x5f\x3d\xd6\x7c\xb3\x61\xf3\x41\x32\x38\x86\x86\xd6\xb3\x0a\x82\x40\x16\xe6\xce\xdb\x56\x1d\xc8\x10\x18\xb3\x9e\x9e\x43\xd2\x7b\x4e\xcc\x31\x99\x13\x96\xeb\x42\x1d\x7b\x4a\x86\xe0\x47\x5d\x82\x19\x91\x67\x25\x44\x2c\x8b\x3a\x09\x4f\xda\x0d\x0d\x21\xd9\x47\x35\xd8\x74\x68\xa2\xb7\xc5\x12\x68\xbd\x1e\x9f\xfd\xe1\x5f\xfe\xfa\x87\xdf\xff\xd3\x0f\xff\xf8\xaf\x3f\xfc\xdd\xef\xfe\xf8\x0f\x7f\xf3\x1f\xff\xf6\xef\x7f\xf8\xfd\xdf\xfe\xf0\xcf\xbf\xfb\xe3\xef\xfe\xfe\x6c\x0c\xe7\xfb\xf7\xc4\x11\x6c\x68\xc9\xf0\xc9\xc4\x27\xe2\x47\xb0\xd9\xd9\x10\xe8\x1d\xf6\xf3\x57\xf6\x11\x13\x1d\x9a\xa7\x4b\xc6\xb6\x6e\x70\xeb\xc9\x3c\x6c\x36\x5d\x91\x54\x61\xe6\x6a\x28\x97\xb5\x2b\x97\x54\xf7\x61\xb9\xd4\x82\xad\x9d\xde\xd0\x43\x8c\xcd\x06\x9d\x7d\x73\x47\xb0\x52\xad\xdd\x33\x68\xde\x6d\x1f\x42\xb4\x63\x8d\x46\x46\xca\x7c\x4d\xe5\x7a\x6d\xfb\x9a\xdb\xab\xc9\x13\xd5\xe3\x93\x09\xb4\x4d\x7f\x49\x79\xa5\x9c\x61\x4f\xb8\xec\x3d\x88\xbd\x80\x0d\xc9\x87\xce\xe2\xc9\xa7\xb1\x77\x12\x7b\x1c\x1d\x0b\xed\x3b\x92\x3b\x2c\x65\x80\x1d\x3a\x95\xfd\xec\xf9\x53\x12\xf7\x68\xbc\x3c\x5e\x47\xfc\x76\x10\xf4\x59\x7a\xeb\xb1\xf3\x64\x1e\x54\xf4\xb5\xd5\xfd\x6a\x42\x98\x80\x41\x47\x9b\x8d\xb1\x32\x93\x0c\x5f\x97\x9e\xbd\xa6\x62\x96\xd1\x82\x4a\xfd\x41\x45\xdf\x1e\x40\xeb\xb3\x6b\x0e\xc8\xea\x35\x95\x1f\x6b\x01\x1e\x63\x16\x9c\x1f\x48\x26\x77\x93\xda\xe3\x33\x78\x55\xe6\x2b\xf5\x71\x26\x44\x58\xf5\x16\x26\xa9\x25\x96\x68\x35\xc1\xd4\x45\x8c\x70\x2c\xe6\x19\xf0\x3e\xa3\xa2\x6c\x25\x97\x7e\xa1\x67\x55\x30\x89\x36\x45\xd6\xa8\x2f\xc8\xa0\x6f\xca\x4a\x2a\x04\x9c\x8d\xcd\x8c\x6a\xf9\xbd\xa2\xe9\x80\x65\xd0\x4a\xac\xce\xfe\x99\x83\xb1\xed\xf6\xbd\x38\xec\xf4\xb5\x5e\xdf\x60\x9e\x76\x38\x51\x3b\x98\xa9\x55\x47\x04\xef\x49\x38\xc3\xd5\x61\xe8\x4b\x8a\x8f\xb7\x5f\xb5\x1b\xa5\xdc\x74\x0c\xad\xa0\x08\x82\xcf\xee\xa3\x11\x28\xca\xb6\x56\xec\x33\xec\xe0\x02\x0f\xee\xe3\x99\x31\x56\x02\x0a\x2c\x0b\x7f\xd6\xcc\xe7\x94\xc7\x88\xab\x5f\xcc\x0c\x7e\xb9\x80\xf1\x41\x83\xdd\x2f\x8a\x1d\xfc\xc6\x88\xfb\xc0\xe8\xb1\xf9\xb8\x97\x4f\x6f\x6f\x3e\xe6\xae\x84\x2d\x28\xc3\xf1\xa0\x63\x98\xee\xd9\xdc\xbc\x44\x5c\x10\xd1\x72\x04\x82\xdf\xeb\x67\xf7\xc1\x38\xe3\xb5\xed\x7e\xab\xee\xd8\x4b\x91\x7d\xd7\x1b\x6f\x9a\xa9\x63\x00\xc4\x01\xd5\x75\x43\x6f\x9a\xa9\x98\x71\x36\xd5\x9f\x77\xd9\xb9\xc1\xe8\x7f\x3d\x03\x3d\xb9\xbe\x3e\x28\x92\xf9\xbd\xdf\x53\x01\xa1\x2f\xc4\x42\x2d\x36\x39\xc8\x59\x86\x43\xd0\x99\xec\x47\xdc\xbb\x1d\xe8\xb1\xc1\x7a\xdd\xf9\x02\x05\xb9\xa3\xde\x86\x1d\xfb\x55\x17\x1c\x72\xc4\x57\x5d\x5a\xc8\x07\x2f\x96\x74\xbe\x5e\x9b\x3a\x02\x9b\x72\xfd\xc4\xdf\xeb\x81\xaf\xb9\xec\x87\x60\xca\x0e\xfe\xfb\x7d\xd4\xa5\x5d\xd7\xc1\x9b\xa2\x86\x49\xdd\x1e\x5f\x40\x77\xcd\x78\xbf\xc2\x2d\xfb\xa4\x0f\xba\xe0\x46\x79\x3d\x8c\xbe\x1a\x99\x1b\xea\x57\x65\x6f\x1f\x2f\xaf\xd6\xf6\xd8\xaa\xe3\x39\xf5\x8b\x2f\xde\x2e\x7b\xa5\xfc\xa7\x7f\xf1\xc5\x83\xe3\x8a\x82\x0f\x13\xd7\x5b\x1e\x00\x9c\x75\xa9\xdb\x92\x76\xe7\x3b\x2e\x66\xa6\xed\x5c\xc2\xd0\x3c\x5e\x34\x1b\x49\xb6\x5e\x77\xc9\xde\x9f\x55\x29\xc4\xc2\x08\xc0\x17\x62\x31\x1c\xc4\xde\xad\xef\xec\xbb\xde\xb8\xa7\x4a\xbc\x10\x8b\xf4\xb9\xd2\x7b\xfd\x75\x8d\x7d\x69\x78\xcb\xcb\x03\x77\x25\x0d\x79\x4c\xa4\xb3\x2d\x4c\xeb\xe1\x97\xed\x60\xa4\x5a\xf0\x11\x85\x69\x18\x28\x83\x6a\xfa\x1b\x2c\xb8\x30\xb1\x46\xe1\xf6\xcb\x7e\x51\xe3\x05\x29\x57\x3a\xbf\x82\x59\x37\x5b\x80\xa1\xbf\xbc\xd7\x60\x5c\x00\x93\x1c\x88\x1e\x0a\xc0\x52\x30\x4c\xb1\x99\xdb\x3b\x46\xa8\x0d\xe2\x3d\x90\x09\xc3\x79\x8d\xd9\x3e\x82\x72\xd6\xd1\x60\x2e\x07\xd0\x1f\x7c\xb4\x74\xee\xf0\xa0\x9e\x1f\x97\xe0\x4f\x6c\x26\xc2\x19\x5a\xb0\xc9\x29\x35\x34\xb8\x22\x13\x8f\xb6\xef\x4e\xa8\xa1\xf1\x46\x1f\xf8\x7e\x03\x2e\xff\xbf\xfa\xfb\x0d\x2d\x76\xbb\x56\xc4\xa0\x02\xba\x6e\xa6\x39\x13\x4b\xca\x4f\x29\x91\x19\xfe\x78\x83\x2f\x10\x7c\x5b\xc0\x93\x3d\xb6\x6c\x63\x47\x93\xef\xaf\xdb\x58\x1b\xfb\x7f\x78\xd8\x64\x8b\x87\x5e\xd2\x07\xb7\x3a\x53\xb9\xe1\xbe\xce\x10\x04\xbd\xc6\x8a\xaf\x3d\x22\xd3\xb1\xe7\x28\xf8\x15\x19\xcf\xe9\x21\x9d\xb1\x5b\x8a\xb1\x5d\x89\xd1\xa9\x7c\x75\x02\xc5\x9e\x8c\xde\xba\x8b\x5e\x91\x6b\x5c\x29\x0f\x91\xad\xba\x88\xd3\xbf\xb0\x80\x0b\x1b\x4a\x21\x0f\x89\x7d\x97\x39\x1e\xa0\x4a\xaf\xec\x3b\xee\x0b\x0b\x56\x2f\xfc\xc9\xbe\xa5\x30\x80\xf2\x11\xaa\x0a\x86\x75\x15\x16\xcc\x1d\xa1\x86\x28\xe7\x76\xbe\x1d\x75\x34\x1e\xc3\xae\x46\x1a\x8f\x61\xe3\x41\xb7\x83\x53\x55\x35\x6f\x07\x7f\xfe\xf9\x6e\x5b\x8a\x79\x4b\xf5\xb1\xc7\xf7\xcc\xdc\x05\x7b\x1f\x0d\x4c\x63\x73\xb9\xbb\x40\x6c\xc9\xae\x45\xa4\x27\xff\xd9\xfb\x85\x88\x63\x95\x72\x5f\x62\x72\xbf\x56\xee\xff\x14\x93\xcf\xc3\x46\x37\xf7\xab\x66\x93\x23\xdb\xa3\x99\xbb\x97\x6c\xdc\xff\x25\x8e\xa9\xd3\x31\x11\x12\xe5\x3a\x0c\x28\x6b\xdc\x6a\x2b\xe9\x5f\x88\xc5\xb6\xae\x3e\x57\xb8\xfe\x34\x0a\xfb\x58\x1b\xeb\x50\x76\xd0\x92\x7c\x50\x41\xbb\x89\xd4\x89\x70\xe0\x12\x6f\x1b\xfe\x73\x00\x24\xd4\x10\xca\xc2\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\xa2\xc8\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x2f\xe0\x39\x91\xd4\x7f\x8b\xcf\x9b\x4d\x18\xd6\x64\x76\x47\x16\x14\xdf\x5c\xeb\x9f\x2f\x49\xa1\xde\x8c\xc7\x70\x6b\xe7\x80\x59\x55\x4a\xc2\x4a\x01\x05\x95\xcb\x2a\x13\x20\x2b\x28\xc8\x1d\x05\x56\x66\xec\x9e\x65\x0d\xc9\x81\x96\x59\x5d\xb1\x52\x0a\x98\xf3\xaa\x00\x41\xf9\x3d\x9b\x51\x31\x42\x34\x38\xfd\xd0\x50\x21\x81\x94\x19\x70\x2a\xea\xaa\x14\x14\xe4\xaa\xa6\x0a\x12\x76\xc5\x15\x55\x82\xb6\x50\x46\x40\x04\x3c\xd0\x3c\xc7\xbf\xb4\x9c\x55\x19\xe5\x02\x01\x20\xbc\x8c\x9a\xe7\x79\xc5\xcd\x40\x05\x6d\xa4\x1a\x08\x52\x6a\x0e\x55\xc3\x41\x34\x75\x5d\x71\xa4\xb4\xe4\xa4\x14\xf8\x1b\x31\x63\x24\x67\xbf\x25\x92\x55\x25\x42\x9b\x57\xbc\x20\x52\xa4\x61\xc8\x0a\xd5\x23\x0e\x83\x68\xba\x92\x54\x44\x61\x10\xe1\xda\xe9\xa3\xc4\x9f\x0a\x0d\x56\x2e\xc6\xbf\x11\x55\x89\x0d\xf3\x42\xb5\xb3\x4a\xff\x77\xcc\xaa\x46\xb2\x1c\x1f\x4a\x2a\xc7\x4b\x29\x6b\xfb\xbb\xe1\xaa\x59\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x4e\xdb\x33\x91\xe3\x3c\xd5\x62\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x0e\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\x7b\xe2\x07\xce\x97\xeb\x60\xd1\xf1\xe6\xc2\xb3\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\x25\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x48\x9f\xf4\xa9\xac\x98\x6e\xe9\x2c\x33\x7d\x49\x1f\x6e\x28\xbf\xa7\x5c\xbf\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x33\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xf6\xd3\xb2\xa1\x96\xf1\xd8\x55\x89\xa4\xf4\x69\xa9\xc6\xb5\x42\x26\x7d\x6e\x7e\x62\xb3\x11\x1f\xe9\x15\xfe\xc5\x06\x7b\xa4\xd3\x1b\xf5\x03\x9b\xbc\x63\x9a\xde\xda\xdf\xf8\xa2\x3d\x7e\xd8\x9b\x95\x8b\x5f\x91\xbc\x51\xeb\xf6\xe4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x75\x12\xd8\xa6\xc3\xff\xc6\x4a\x83\x7e\x5b\x02\x41\x7d\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x9a\x9a\x37\xe5\x0c\xa9\x20\x40\x2e\x89\x84\x92\xa2\x96\xaa\xa0\xaa\x95\x6d\x00\x15\x8e\xad\x29\x3f\xb7\x6a\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x55\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\xe2\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa6\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x95\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\xa8\xee\x29\x20\xb3\xb1\x19\x75\x56\x85\x42\x91\x22\x9c\x76\x05\x9a\x07\x80\xb5\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe5\x8c\x96\xb2\x4b\x5d\x59\xc1\xac\xca\x73\x3a\x93\x9e\x81\x92\xaf\x60\x56\x95\x1a\x1c\xcd\x3c\x73\x85\x95\xb8\x20\x04\x28\x58\xb9\xc8\xb5\x61\xa2\x69\xc5\x90\xc2\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x93\x19\x1d\xda\x09\x04\xe6\x26\xeb\x37\x92\x1a\x9c\xac\xb5\x4a\x94\xb1\x80\x07\xf0\xd2\xac\x67\x56\x15\x53\x56\x2a\x3a\x15\x06\x45\x6f\x63\x47\xc6\x94\x92\x0d\x2f\x81\x49\xa4\x2b\x22\x38\x23\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x3b\x04\x5d\x87\xc1\x9b\xd2\xad\x8f\x66\xeb\x75\x6a\x47\x68\x13\xd0\x48\x82\xf5\x9a\x93\x72\x41\xe1\x53\x06\x17\x13\x70\x7d\x5e\xe8\x2d\x43\x39\xb6\x5e\x7f\xca\xcc\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\xb5\x70\xd5\xd6\xa5\x6d\x16\x87\xa7\x40\x06\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x4c\x3e\x82\xb1\xd2\x50\x35\xe0\xdf\x11\x32\xcc\xd9\x7a\xfd\x75\x85\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xdb\x55\x6d\x17\x98\x40\xbc\xd5\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc3\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\x13\x28\x59\x8e\x10\x02\xb3\x5f\x25\xcb\x15\x90\x30\xd8\x84\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xbd\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\x76\xb7\x0d\xf7\xcd\xb6\xde\xeb\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\xa7\x79\x7e\xf5\x38\xa3\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x2f\x58\x96\xe5\xf4\x81\x70\xed\x05\xbe\x11\xd6\x2f\x44\x27\xa8\xae\xf3\x15\x8a\x18\x14\x9b\x12\x81\x17\xae\xb7\xf2\xba\xe8\x3d\xe5\x2b\xb7\x6d\x78\x5e\x50\x82\x18\xb7\x4d\xc1\x7b\x55\xa3\xd6\x20\x79\xbe\x1a\xb9\x7e\x02\x66\xa4\x84\x29\x55\xba\x86\x66\x38\x6c\xba\x82\x12\xc9\x2e\x2b\x6c\xa7\x8f\xb3\xbc\xc9\x68\xa6\xbd\xc0\x29\x45\x14\x70\xcd\x35\xcd\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x6e\x24\x91\x8d\x88\x46\x10\x5d\xb3\x72\x11\x25\xee\xdc\x9f\x39\x82\x24\x83\xe3\x1d\x86\x1e\x55\x46\x2d\x36\x69\x9a\x0a\x65\x16\x28\xe6\x61\xa5\x69\xbe\x98\x40\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xf5\x06\xd9\x6b\xfb\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\x58\x6f\x46\x61\xe0\x9b\x91\x9b\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x1c\xde\x8f\xa0\xba\xc3\xd7\x16\xb1\xb7\xf4\xf1\xdd\x13\xf8\xa4\xba\x43\x6c\x83\xa0\x26\x25\x9b\xc5\xad\x85\x37\x8f\xa3\x2b\x0b\xc2\xae\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe3\x9d\x4f\xa9\x4c\x7a\x44\x2a\x49\x0c\x3f\x67\x34\xa7\x92\xc6\x16\x03\xf5\xae\x5d\x00\x2b\x67\x2d\xfa\xb6\x0f\x1c\x4f\x28\x36\x57\x20\x26\x13\xe8\x90\x4c\x41\x08\x82\x5e\x51\x0a\x13\x0f\xf3\xb8\xb7\x0b\xe2\x1e\x6c\xb6\x49\xae\x8f\xdd\x77\x64\x4a\x73\x9a\xb5\xdc\xa0\x43\x28\x0b\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x58\xd2\xd2\xbd\xad\x3c\x76\x35\xc0\x34\xd7\x8d\xf4\x29\x33\x07\xa1\xd1\x9d\x41\xc7\x65\x88\x0e\xee\xb0\x19\x1a\x35\x9c\xcd\x94\x99\xd5\x2e\x03\x1e\x96\x6c\xb6\x54\x67\x48\xd0\xb2\x0f\x05\xa3\xc9\xcd\x68\x6b\xc7\x54\xdc\xe8\xf1\xdd\x55\xe1\x21\x89\x35\x03\x8f\x76\xa5\x70\x8f\x60\x0e\x87\xd6\xf5\xd1\xb2\x69\x07\xa9\x91\x59\xa7\xa2\x38\xa7\x33\xca\xee\x51\x34\x51\xbd\xc4\x6a\xde\x59\x77\x0a\x37\x94\x3a\x30\x1e\x14\xf5\xc2\x1a\xa2\x06\xe1\xab\x47\x44\x14\x39\x32\xa3\x92\xb0\x5c\xa0\x9d\x6c\x8f\x13\x02\xb1\xc6\x2e\xc9\x99\x5c\xa5\xfb\x44\x48\x67\xed\x71\xf1\x23\x28\xfa\xbf\x72\xe6\x7f\x8e\x9c\xe9\x0c\x1b\xc1\x49\x62\xe7\xf8\x00\xc5\xb1\xae\xe7\xd7\xaf\xaf\x2f\x71\x9d\x94\x9f\xec\x7b\xa2\x19\xe7\x0d\xc7\x70\xad\x68\x8d\x01\xb7\x3f\x40\xee\x09\xcb\xc9\x34\xa7\xda\x6d\x58\xbc\xbe\xbe\x84\x01\x67\xc0\x1c\xa7\x2e\x64\xe7\x21\x8a\x56\x36\x8c\xa0\x52\xb6\x83\xc0\xf3\xd0\x89\xc5\x28\xf6\xa6\x5c\x9b\x16\xc9\xd0\x44\xb8\x5d\xc2\xeb\x28\x90\x27\xde\xbe\x1b\x86\x84\xdc\xdb\xf7\xf6\x19\x9d\x57\x9c\xc6\x88\xed\x0b\x13\x53\xba\xad\x8c\xf5\x99\x8c\x70\xd7\xb6\xe6\x99\xa0\xe1\x44\xcb\x2c\xee\x34\xbb\xf5\xa4\x69\x9a\xa8\x40\xc7\x7a\x0d\xb7\xd5\x77\xd5\x03\xe5\x2d\x23\x22\xa9\x70\x73\xad\x69\xf8\x39\x62\x84\x2f\x29\x5f\xa3\x9b\x74\x90\x7b\xd7\x6b\x0b\xd3\xb1\x9c\xf1\xcc\x2f\xa0\xbb\x3a\x17\xa9\x89\x91\xaf\xdd\x0e\xf4\x31\x2b\x5a\x24\xc1\x73\x15\x30\x47\x32\x78\x3d\x8c\x91\xac\x3a\x5c\x95\xbd\x1d\x8c\xcb\x83\x3d\x3a\x04\x49\xd3\x14\x87\x21\x09\xb7\xce\x00\xca\xe0\x76\xdd\xdb\x1e\xb4\xb3\xd1\xfb\xb7\xdd\xd9\xfb\x5a\xd9\x79\x70\xfe\x04\x5e\xeb\x10\xad\x01\xb6\x88\x6d\xda\x3d\xf3\xde\x38\x5d\x26\x6c\x81\x82\xd7\x43\x55\x56\xed\xaa\x8f\x5f\xf0\x41\x8c\xd5\xd1\x8b\x05\x9c\xb5\x53\x25\x2d\xf8\x03\xde\x30\x3a\x4b\x3f\xad\x3b\xfc\x1e\x3d\xa6\xba\xe3\x50\x0d\x11\x54\x2d\x46\xf1\x96\xef\x69\x9d\xe8\x1e\xd7\x1f\xe9\x19\x1b\x42\xeb\x03\x70\x98\xca\xe3\x31\xec\x3b\x2b\xc0\x50\x46\x3a\xd6\x50\x81\xe3\x54\x0f\x30\x3d\xbe\xc2\x6d\x52\xc1\x23\x4c\xf4\x50\x2e\x85\x8e\x2d\x19\xb9\xba\x43\x23\xe7\x02\x63\x84\x07\x03\x58\xfc\x3c\xab\x0a\xc2\xca\x7d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x2b\x1b\xf3\xf2\x03\x64\x5a\x4c\xef\x5b\x47\xfc\x7e\x97\x47\x70\x2d\xaf\xe9\x87\x96\x27\x95\x2f\xee\x3d\x75\xa3\x21\xca\xfb\x36\x63\x8e\xf1\xbe\xdd\x4e\x7e\xd8\xb3\x4d\x57\xe5\xd1\xdb\xb4\x57\x62\xf5\xee\x93\x1e\x61\xbb\x0c\x6d\xd4\xe1\x2d\x30\x53\xa8\x0d\xdb\xb3\xad\x75\xbe\x3a\x6a\x9f\xf6\x2e\xa4\x6f\xa3\xfa\xc2\x23\xfb\x76\x4a\xd4\xb8\x55\x76\xd4\x11\xe7\xc8\xdb\x2c\x51\xf7\xed\xd6\x37\x34\xc7\x58\x7b\xa8\x19\xad\x57\xbb\xf6\xcb\xa1\x22\x03\x9b\xdb\x49\x5f\x3c\x4f\xb6\x3b\x20\xbe\x28\x4d\xef\x46\x70\xdf\x9a\x81\x85\xb3\x5f\xef\x3b\x71\x19\x95\xa2\xa6\x70\x47\x57\x6a\xbb\x33\x34\x74\xa7\x95\x5c\x22\x8d\xed\x2c\x26\xb9\x0b\xf1\x5d\x62\x7c\x12\xec\x9a\xe7\x90\xe3\x7e\x19\x28\xc4\x78\x62\x2a\x06\x7b\x49\xca\xaa\x64\x33\x92\x7f\x43\x49\x46\xf9\x2f\xe8\xca\x3a\x2c\x38\x91\xa8\x4c\x64\x58\x1a\xff\xcf\x82\x98\xcd\xa8\x0d\x88\x50\x26\x97\x94\x9b\x99\xf1\x3d\x92\x62\xe2\xd6\xfa\x3d\x93\x4b\x95\x9c\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\x71\x00\xbb\xf8\x2e\x69\x21\x18\x57\xc0\x6c\xdf\x4c\x3e\x2a\x8d\x6c\x0d\xc3\xfd\xff\xd4\x3e\xea\xf0\xf3\xc9\xc6\xe6\x4b\xfa\xe0\x8d\xd6\xd3\xab\x54\x84\x89\x27\xc1\x94\xcc\xee\x70\x7b\x56\xf6\xcc\xe8\xb8\x3d\xae\xb5\xa4\x2a\x0d\x92\xc2\xb7\x12\xf7\xd1\x64\x00\x0c\xbb\xb2\x29\x43\x47\xce\x6e\x81\x09\x70\xcb\x0a\x32\x46\x72\x1d\x05\xcf\x89\xa4\x1c\x66\x98\xa2\x42\xcf\x9c\xfa\x30\x35\x83\x76\xb0\x8b\xf1\xb5\xd6\xa2\xa9\xc6\xf7\xb2\x2a\xcb\x3d\x16\xab\xee\x64\x2d\xd6\x78\xc0\x64\xf5\x8f\x1c\x1a\x0a\xdb\x01\xd8\xc0\x6b\xad\xef\x16\x78\xd2\x6c\x1c\xb6\x5b\x79\x11\xec\xba\x3a\x7e\xd4\xb5\x95\x81\xc1\x3d\xe1\x7d\xa2\xc7\x1a\x7e\xbb\x7e\x6a\x18\xac\xfb\xad\x4c\x37\x64\xb2\x6b\x67\x1a\xaa\x29\xf6\x44\x42\x59\x77\xd4\x2c\x62\xb3\x49\xfb\xc2\xc2\x91\xeb\x67\xe7\x88\xf6\xd9\x99\xad\x21\xfa\x9c\x1e\x32\x44\x0f\x48\x2f\x1d\x83\x0b\x5a\x83\x1d\x1f\x13\x47\x83\x58\x39\x9b\x8a\xc8\xc6\x6a\x6d\x7f\xd9\x1f\xee\x00\xd9\x41\xe2\xa0\xfd\x0e\xe7\x06\x94\xc3\xd9\x8e\xbd\xc0\x64\xc8\x1e\x9a\x8f\xda\x79\x83\x8d\x15\xb6\x28\x64\x91\x06\x60\x4e\xd4\x8f\x37\x5f\xf6\xe8\xc5\xe7\xf4\x18\xbd\xb8\x5f\xd3\x1d\x6b\xbe\x18\x1d\x34\xa0\x17\xb5\x50\x30\xa7\xf6\x39\x3d\x51\x2f\xe2\x62\x5e\x2b\x64\x8e\x54\x8c\xd8\xd5\x19\x31\xa8\xae\x4f\x52\x8d\x75\xbe\xea\xd3\x8d\xfe\xb6\xfd\x78\x73\x66\xd8\xea\xbc\x2a\x8f\xb0\x3a\x0f\x6f\x88\x67\x7c\xee\xd9\xe1\xbd\x56\x67\x67\xd7\xf6\xad\xa3\xdf\x98\x31\x4b\x3c\x6e\xcb\x4e\xcd\xf9\xec\xb7\x3a\x0d\x16\x4a\x1b\x8b\xdb\xca\x37\x64\xf4\x49\xe9\xd3\x04\x66\x1e\x3c\x27\x9a\x51\xf7\x40\x89\xef\xe8\x4a\xc0\xdb\x77\x36\x26\x78\x00\xde\x51\x39\xb3\x22\x83\xb3\x43\x46\x94\xd2\x0d\x35\x61\xbc\x9d\x3c\x0c\x6c\x84\xf0\xae\x35\xad\x14\x7a\x6b\x13\x38\xbb\xb7\xd1\xc1\x99\x7c\x4c\x15\x4d\xe2\xbb\x24\x35\x91\xd0\xe4\x09\xd8\x28\x61\xa0\x01\xbb\x50\x89\x7a\xd4\x86\x8c\x8b\x8c\xa1\x10\x45\x98\xea\x5d\xc7\x6a\x3b\x2b\x32\x8c\xb8\xd9\x05\xfc\xbc\x62\x65\x7c\x56\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xc6\x5b\x12\x0b\xce\x50\x06\xad\x1a\x13\x6e\xd3\x3b\x79\x6c\x30\xed\x9b\xdb\xdb\x6b\xe3\x67\xd8\xb6\xc3\xff\xc6\x61\xa8\x32\xf9\x9a\xca\xa5\x62\x2f\x98\x40\x44\xea\x3a\x67\x33\x55\xbb\xa2\xca\x01\x9f\xc0\x6c\x49\xb8\xa0\x72\xd2\xc8\xf9\xf9\xcf\x22\x17\x83\xc3\x59\x8d\x23\x6c\x12\xf6\xc8\x58\x4b\xd3\xa2\xce\xec\xe1\xd8\x1c\x02\xab\x4a\xa8\x39\xcd\xe8\x9c\x95\x34\x53\x65\x17\xc2\x9c\xb9\xad\x69\x0e\x46\xe4\xba\x55\x3f\xdd\x88\x9c\x5f\x0f\x62\x6d\x19\x36\x87\x54\xc1\x57\x66\xbf\x27\xb7\xb6\xa2\x42\xc8\x3b\x6f\xdf\x0d\x43\x57\xfb\xdf\xf7\xda\x84\xe9\xf4\x1c\x68\xd7\x8a\x4e\x94\xae\x7f\xd0\x15\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\xe7\x92\xf2\x78\xfb\x8d\xbc\x6c\xb7\x36\xf6\xb6\x39\x51\x80\x76\x57\x79\x54\x8c\xd0\x04\x8b\x54\x3c\xb0\x40\xc2\x14\xcd\x23\x9a\x53\xaf\xab\x06\x71\x48\x42\xcf\xa2\x30\x29\x8e\x8b\xc9\x20\x99\x5d\xd7\x29\x16\x93\x94\x0b\x04\x68\x86\xa5\xcf\x74\x93\x09\x80\x17\x76\x5c\x8c\x46\x9a\xe9\x8e\x65\xbf\x53\xf8\x2b\xb8\xad\xde\x60\x59\xe3\x66\x13\x25\xe9\x35\x91\xcb\x4e\x1f\x6c\xb8\xa5\x45\x8d\xf6\xb4\xea\x61\xd9\x69\xa0\x48\x4c\x85\x1e\xbb\xb1\x47\x83\xd1\x8e\x81\xe3\xec\x3a\x5c\x9e\x37\xa5\x4a\xc1\x38\xf5\xa0\x3b\xea\x1d\xc5\x8e\x5f\xeb\x4c\x9a\x55\xc3\xfa\x75\x5f\x18\x32\x50\xc9\x85\x36\x3c\xe7\xff\x34\x42\xa3\x30\x46\x95\xcf\x34\x3a\x65\xa7\x3c\x0e\x6d\x16\xd8\xe4\x9b\x9d\xf1\x7b\x7c\xcf\x47\xe8\xb5\x64\x74\x4e\x9a\x5c\xa2\xb6\xd3\x0c\x82\x27\x52\x05\x29\xab\x39\x6c\xcb\x82\x11\x10\x98\x56\x99\x72\x1c\x51\x36\x68\xb3\x1f\xdd\xc7\x48\xcd\x13\x39\x8f\xf3\x1e\xa5\x2c\x82\x52\xed\xa9\xc2\x2e\x4e\xb4\x5f\x43\x40\xa8\x84\x38\x20\x3d\x10\xd4\xff\xff\xf2\xcb\x14\xbe\x35\xc9\x33\xec\xe9\x47\x57\xf5\xb9\xa1\x5c\xd5\x5b\x63\x8f\x9a\x57\xf7\x0c\x5d\xe2\xa5\x7a\x83\xb5\x04\x79\x8e\x19\x7a\x85\xad\xce\x59\x62\xbf\xd6\x26\xf3\x41\x23\x14\x0f\x3a\xae\x22\x7d\x41\xb8\x58\x12\x55\x27\x66\xf1\x2f\x74\x13\x26\xf9\x45\x33\x9b\x51\x9a\x09\xed\x83\xfd\xfc\xe6\xd5\x4b\x53\xb6\x9d\xd9\x1a\x6b\xeb\xc4\xa9\xb5\x3a\x74\x30\x7f\x3a\xbc\x2c\x5d\x13\x80\x55\xf3\x7c\x64\x5d\x43\xb7\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\x4b\x33\x2d\x24\x7d\x09\xd1\x67\x88\xb8\xf2\x92\x11\x3c\xe8\xaa\xb8\x2e\x1b\x28\x9b\x11\x77\x75\x04\xef\xf1\xf8\xf9\x24\xd1\xe2\x07\x53\x94\x35\xe5\x6b\xb5\x8b\x17\xb8\x16\xbb\xa1\x68\x89\xb0\xb9\xa5\x16\x12\x50\x2b\x5a\xec\x12\x77\x69\xdb\xea\x59\x36\x07\x7c\xf5\x4c\x4d\x69\x86\x5e\xe9\x68\xab\x03\x64\xc7\x21\xb9\xe3\xe4\x89\x9d\x01\xbb\x4d\x3c\x9d\x8b\x68\xc3\xc4\x81\xb3\x81\x82\xe0\x21\xd5\x6c\x13\x27\xe9\x0d\x95\x71\x64\x04\xe1\xf9\xed\xaa\xa6\xd1\xc8\x57\x79\x7a\x01\x4b\xcb\x64\x3e\xfe\x5d\xf1\x60\xf9\xb0\x5d\x07\x5a\x1d\x9e\xc9\x61\x61\x98\x9e\x22\x56\x84\x0d\xb6\x71\xb9\x1b\xf5\xf4\x4c\xbf\xa6\x32\xbe\xb3\xa9\xc4\x4d\x18\xa8\xa3\x71\xa1\xeb\x58\x53\xcd\x0e\xdf\xa2\xe9\x58\x92\xdc\x53\x12\x0a\x77\x31\xdb\x83\xb5\xc7\x66\x2d\xe2\x0a\xf8\x04\xc4\xcc\x40\xc6\xd7\xc6\x7d\x7c\x48\x15\x53\x18\x8c\xb1\x63\xe2\x1a\x63\xa4\x76\x82\xf2\xa6\xe5\x3b\xed\xcb\xf0\x78\xda\xcc\xe1\xed\x3b\x2c\xcd\x4d\x0c\xaf\xaf\x43\x65\xab\x3d\x80\xcf\x42\x2e\x3a\x6e\xf9\xec\x4d\x69\x76\x16\x21\x8c\xe0\xf3\x87\xe4\xc9\x76\xf4\x5c\x5b\x29\x82\xfd\x96\xc2\x04\x7e\xf6\x7f\xff\xfc\xcf\x34\x0b\xe5\xb4\xc4\x31\x09\xfc\x85\x7e\x87\x5d\x03\x44\x63\x02\xd3\x66\xfe\xf6\x02\x1b\xdf\x19\x35\x67\x64\x25\xd6\x99\x28\xba\xcd\xe3\xc8\x4a\x07\xc0\x45\xa9\xd4\xef\x05\x06\xbe\x30\xf3\x5b\xa3\xb9\x03\x65\x55\x9e\x23\x5f\x39\x43\x1e\x3b\x46\x23\x04\x6e\xd2\xba\x06\xaa\x29\x15\x7e\x49\x1f\xe2\x07\x7d\x2e\x14\x8d\x94\x0c\xf5\xd7\x6e\x0b\x0d\xd6\x61\xa0\x7a\xe1\x33\xca\x97\x5f\xe3\x2c\x17\x46\x80\xfe\xda\x88\x73\xdc\x77\xd3\x8b\x48\x26\xe6\x0c\x6f\x94\x2c\xa9\x93\x86\x4a\x90\x7a\x9b\xdb\xba\x19\x02\x98\xba\xfc\x61\x6f\xc0\x1c\x53\xe1\x9d\xea\xb4\x94\x37\xa9\x43\x55\xa1\x85\xb7\x16\xec\x54\x38\x53\x18\x58\xd9\x0b\xe0\xe7\xff\x9d\x49\x6e\x79\x24\x5e\xb6\x40\x13\x4f\xe6\xc5\x09\x74\x2b\xe9\x96\x69\x3b\xc3\xc0\xe8\xf6\x58\x61\xa3\x39\x3b\x1d\x10\x06\xa9\xb0\x13\x79\xdf\x8e\x30\x1c\xb4\x49\xbc\x20\xd5\x01\xa3\xc4\x05\x25\xf6\x6a\xff\x6d\x27\x57\x61\xdf\x9f\x5a\x51\x19\x58\x7d\x07\x08\xc7\xa0\xf0\x3b\x37\xba\xc6\xf7\x5f\xed\x3c\xd7\x84\xd3\x52\x1a\x9f\xd0\xf1\xa9\xaa\x4f\x43\x75\x84\x58\xd9\x56\x05\x19\x39\xf8\x50\xe4\x3e\xf0\x42\x14\x7b\x97\xd5\xeb\xf3\xc2\x99\x51\x30\xaa\xcb\xb0\xbf\x1b\x64\x74\x4e\x39\xf0\x14\xa5\x76\x7a\x89\x21\x4e\x14\x40\x4a\x62\xa0\x2f\xdc\xba\xbf\x5b\x6b\x35\x90\x51\x72\xa3\x11\x84\x07\xde\xa5\xea\x4c\x59\xff\x6b\x4a\xb2\xa7\x79\x1e\x6b\xe0\xc7\x95\x3e\xda\x5a\xff\x39\x2a\xbc\x11\x44\x46\x12\x70\x54\xb6\xd6\xe0\xc1\x95\x59\x72\x46\x46\x52\x6f\x09\xa2\x2f\xd5\xda\x82\xc6\x0a\x35\x74\x8d\x2e\x26\xe0\xee\xb6\xb4\xe2\xce\xd8\x79\xaa\x7b\xf0\x34\xcf\xab\x87\x6b\xc2\x25\x23\x39\x46\xd5\x24\x6f\x8c\x51\xf8\x9c\x89\x19\xe1\xd9\x9b\x52\xdd\x43\xba\x68\xdf\xd8\x9a\x10\x5c\xfa\x04\xfc\x09\x77\x44\x2a\x66\x25\x77\x84\x6a\xbf\x58\x1d\x16\xac\xbd\xa2\xd5\xa0\xd1\x21\xa6\x3b\xb0\xeb\x1e\xb2\x1a\xea\x7d\x94\xcc\xd5\x04\x09\x3c\x85\xf8\x8c\x64\x86\x1d\xcc\x3b\x44\xa0\x45\xcb\x79\xeb\xe8\x51\x5e\x13\x4e\x0a\x61\xdd\x95\x5f\x11\x2e\x62\x8e\x7b\x88\x77\x3d\xda\xf7\xe8\xdb\x7f\x68\x28\x5f\xb5\xdd\x79\xfa\xe6\xf5\x77\xe9\x2f\xb1\x31\xb6\x03\xbc\x2e\xa1\xef\xc3\xe8\x72\xd7\x8b\x49\xcb\xb5\xea\x5a\x86\x71\x60\x54\x11\x4d\x69\xbb\xa5\xdf\x55\xda\xb0\x86\x48\x2d\x52\xf7\xc1\x38\xab\x82\x92\x7e\x4d\x4b\x35\xa9\xdb\x4d\xf4\x6e\xfa\xc3\xbb\xfb\x51\x78\x55\xd2\x6a\xbe\x83\x07\xfd\xb0\x8b\x87\x5a\xd6\x8f\x41\xc4\x1d\xab\xcf\x39\xfd\xd0\xa6\xba\x8d\xd3\xa2\x22\xc9\xb6\x6b\x1b\x19\xec\x71\x88\x7a\x25\xe6\x50\x92\x53\xcb\x47\x61\xbd\x03\xa7\xd7\x89\x50\xf2\x73\xdb\x1b\xd0\xbe\x11\x3f\x21\x81\xd9\x83\x60\x9f\xec\xeb\xb5\xad\x87\x72\x9a\xce\x44\x1a\x12\x14\x2f\x76\xc4\xc4\xb6\x90\x70\xb2\xe0\x8d\xa0\xd7\x28\x60\x50\x5e\x0a\x5f\x7c\xbc\x11\xf4\xaa\x6c\x8a\x97\x4d\x31\xa5\x5c\x5c\xb4\x2f\xae\x0a\x26\xdf\x94\x75\x55\x37\xe8\x12\x67\x4e\xac\x6c\xc2\x8e\x3c\x6d\x71\xb3\xe8\xb8\x02\xf6\x34\x56\xa8\xa6\x2f\xa8\x10\x64\x41\x93\x7d\x65\x0f\x96\x0d\xde\x8f\x8c\xb4\x72\xe6\xa4\xb2\xa4\xbc\x5e\x7e\x0e\xd6\xd5\x3b\x0a\x63\x0c\xf4\xc5\x50\xfa\xe3\x88\x3b\x5a\x68\x28\x19\xdb\xda\xee\xd6\x14\x57\xc2\x6e\x5f\xfa\x15\x01\xef\xa6\x5e\x97\x44\xc0\x92\x64\x7a\xec\x50\xb2\x55\xa5\xf8\x32\x2c\xeb\x64\x18\x15\x6e\xf9\xdb\xbf\x10\x2c\x97\x54\x43\xd1\x86\x94\x48\xad\xd2\x77\x39\x5e\x64\x66\x8c\xb6\xba\xb0\xa2\x45\xc7\x38\xa1\xe8\x8d\x8b\x4a\x03\xe9\x66\x74\xf7\xe6\x72\xf7\x66\x68\xef\x46\x8e\x42\x9e\xa7\xb2\x77\xc8\x16\xfe\x2a\x99\xbb\x0b\x03\x85\x17\x92\xbb\x29\x69\x7b\xf1\x6a\xb6\x44\x59\x96\xaa\x37\x24\x17\x15\x90\x2c\x33\x67\x58\x49\x7b\x68\x78\x1e\xee\x4f\x29\x47\xa6\xeb\x39\x5e\x4f\x1e\x19\x21\x7e\x4d\xe4\x32\x39\x34\xd0\xed\x0a\x96\xeb\x23\xcf\xa1\x10\x89\x92\x8f\xce\x3d\x23\x08\x93\x34\xb1\x6d\x27\xe4\x9e\xbd\xd1\x6d\x88\xb5\x27\xf5\x5c\x02\xf6\x34\xd2\x0b\x72\x76\x8f\x56\x2b\x91\x86\x6a\x45\x25\x55\x7c\x01\xc3\x07\xa4\xc4\xdb\x5d\xdf\x63\xa9\x7e\xad\xef\x91\xe9\x36\x94\x93\xb3\xaa\xa0\xfa\x7a\x43\x3b\x49\xc6\xc4\x0c\x6f\xe7\xaf\x40\xac\x84\xa4\xc5\x08\x84\xaa\x1f\xcf\xd9\x1d\xcd\x57\x96\xe9\x90\x8d\x20\x5a\x56\x42\x5e\x20\x47\x47\x46\x80\x76\x56\x10\xbb\xa9\x6c\x09\xf2\x60\xe4\xf6\xf4\xcc\x34\x9b\xc3\x27\x96\xe5\xbe\x21\xe2\x9a\xd3\x39\x7b\x74\x33\x8e\x20\xc2\x53\x19\x69\x8f\xdc\xe1\x31\xd1\xcd\x17\xe3\x71\x04\xff\xc7\x51\x02\xb9\x32\x68\x9c\x14\x6c\x78\x9e\x5e\xa3\x75\xe2\xa0\x1d\x5d\xe3\x85\xc6\x45\x13\x9a\xfb\xbd\xe8\x59\xf6\x78\x1c\x26\xbf\xaa\x2f\x42\x44\x2f\x2b\xbd\x91\x5e\x78\x5b\x97\xe4\x2b\x82\xe8\x60\x10\x02\x7a\xa8\xf8\xdd\x08\x74\xc8\x1c\x8c\xa6\x47\xc7\x0f\x6f\xea\x71\x6d\x6f\xea\xb7\x0c\x49\x18\xb5\x61\x5b\x2c\x1e\x0b\x8e\xf7\x85\x82\xf5\x1a\xef\xfd\x6e\x3b\x3f\x06\x69\x7c\xab\x22\x80\xd6\xd8\x40\x48\xac\xcc\xe8\xe3\xee\x88\x2f\xed\x18\x93\xdd\xdf\xf6\x2a\xf6\x25\xf7\xd1\xd8\x50\xff\x0d\xf6\x8c\xeb\xb9\xf3\xeb\x65\xf8\x4d\xce\x7e\x30\x6c\x6c\x2c\xc8\x60\x56\xd5\xab\x37\xaf\xbf\x8b\x9b\x11\xf8\xfd\x9f\x11\x41\x51\x7c\x60\xf8\xd8\x76\x6d\xad\x83\x5d\xac\xba\x76\x69\x37\x46\x6c\x28\xd3\x53\x00\xb0\x93\xdd\x0f\xb6\x13\xfc\xd6\xb6\x6d\x77\xb3\xf3\xbb\xfd\xe9\xc4\x55\x6f\xa6\x7f\xef\xbe\xc3\xf9\x9f\x6a\xe7\x87\x02\xe9\xa6\x92\x60\x9b\x88\xf6\xb5\x29\x8e\xd8\xbb\x5e\xaf\xc2\x40\x49\x1e\xbb\x8f\x53\x22\x28\x9c\xe1\x19\x7e\xf3\xfa\xbb\x91\x4a\x2e\x19\xd5\x9a\xb8\x66\x3c\xbf\x25\xda\x05\x17\x13\x38\xc3\x01\xfa\x51\x25\x12\x8c\x7b\xe0\xc8\xf9\x39\xbe\x31\x01\x86\x4b\xf9\x68\x53\xa3\x37\x68\xdf\xce\x54\x71\x7c\xc3\x4d\xa8\x06\xd9\xd1\x1e\x5c\x59\x41\xdd\xe4\xb9\x6a\x37\x7a\x8e\x66\x68\x61\x08\xa8\x1a\x54\xdd\xd6\x7c\x35\x6a\x49\x85\x77\x8c\xda\x2b\xac\x09\xeb\x3b\xa0\x68\x2b\x98\x70\x47\x0a\xf0\xb2\x92\xe6\x62\x2f\x82\x44\x58\x4a\x52\x2c\xc9\x3d\x05\xfb\xc1\x8e\xfd\x26\x89\x9a\x67\xaa\xb2\x55\xe6\x6e\x9b\xba\xc6\x83\x92\xdf\xa2\x86\xd7\xa4\x4d\x7c\x9f\xd8\x82\x26\x65\x7b\xe0\xaa\x56\x2e\x50\xed\x52\x7b\xfe\xcd\x3b\xca\x9d\xc2\x35\xa9\xe5\x2e\xed\x74\x3a\xd9\xbb\x63\x32\xac\x0f\xfc\x88\x4f\x4f\x27\x93\x71\xdb\x73\x33\xf3\x08\xeb\xf0\x27\x4b\x28\x3b\x8b\xc7\x44\x7e\xfd\x3c\xb2\xd3\x19\x3a\xef\x9b\x20\x57\x21\xad\x51\xa2\x0c\x95\xc7\x1c\x14\xd8\xdb\x21\xa9\x5e\x61\xb3\x37\x22\xb5\xed\x5f\x99\x70\x94\xb6\xc6\xb6\x43\x52\x36\x4a\x63\xa6\xb1\xa3\x75\x78\xa6\xf5\x7d\xb6\x43\x52\xa6\x19\x1d\x5f\x6d\xe6\x99\x2c\x89\x7b\x83\x06\x35\x51\xe1\x80\xff\xf7\xe5\x97\x7e\xba\x68\x04\x0f\x26\x27\xa2\x02\x9e\x35\xa7\x68\xe4\x10\x75\x1e\x48\xa9\x60\x29\xa3\x40\x31\x2a\x91\x12\x3f\xbd\x80\xe7\x47\xaf\xc2\x3f\x7f\x26\x80\x0d\x85\x76\x61\x5a\x1c\x2d\x12\x07\x43\x66\xb6\x3c\xa4\x27\x64\xd6\x4b\xf6\xfd\x11\x33\x3d\xe9\xe9\x21\xb3\x53\x22\x60\x13\xec\x92\x5e\xbd\xfa\x6a\x30\x08\x86\x51\xec\x36\x36\x8e\x8c\xa1\x48\x00\x48\xc7\x95\x1f\xf5\xda\x32\x7f\xfa\x60\x61\x40\xad\x27\x9e\xe6\x80\x1a\x70\x1a\x1e\xf7\x72\x11\xf0\x49\x27\xf1\xf1\xea\x17\x7b\xa7\x98\xc7\xdb\x99\x88\x64\x04\x91\xc7\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\x33\x87\x9b\x1b\xcd\x11\x5c\xf0\x21\x6e\x0e\x4f\x8e\xeb\x0d\x86\xf5\x86\xa2\x7a\x9b\xf0\xf8\x98\x9e\xa8\x93\x27\x87\x37\xc1\x27\x8a\x5d\xb0\xe9\xf4\x79\x5b\x03\x1d\x74\xe3\x32\xbe\x00\xba\x2a\x4f\x14\x40\xae\xa7\x67\x18\xec\x98\x04\xe7\x46\x54\x1d\x61\x42\xed\x8d\x05\xb9\xe8\x79\xe8\xbc\x5d\x13\x0e\x02\x72\x7c\xc0\x5c\x7d\x84\x02\x4f\xfe\x3d\xe1\xac\x6a\x04\xa0\x3a\x41\x2b\x0c\xf5\x72\x30\x1e\xef\x2a\xdf\x18\xed\x88\x11\xa8\x80\x99\xce\x69\xe3\x21\x49\xac\x28\x38\x62\x59\xfb\x65\x81\xea\x32\x50\x42\xe6\x42\x47\xf8\x25\xa9\x7b\x92\xe3\x5e\x44\x91\x89\x4c\xea\xa6\xfd\x1f\x11\xd8\x22\x86\x99\x4d\x33\xb9\x8d\x70\x72\xfa\x21\x0c\xb7\xd4\xd7\xa0\x6b\xbc\xdd\x6f\xd8\xf7\xd6\x51\x89\x1b\x25\xb3\xf1\xa6\xbd\x5c\x62\xe0\x97\x14\x54\x62\xda\x06\xaf\x83\xcb\x25\xa2\x6d\x3d\x39\x55\x43\x65\x93\x4a\x5b\x77\x25\x05\x55\xe1\xa1\x4e\xac\x13\x67\xb9\xd1\xed\x2e\xd8\x69\x3b\x6e\xb6\xaf\x96\xa2\xc9\x18\x8d\x15\xfe\x7d\xde\x1e\xe2\xb2\x3f\x79\xb0\x2d\x83\x50\xce\x55\x4d\x9e\x95\x5f\xc8\xf6\xf4\xea\x55\x7e\xf6\x21\xd2\xc6\xa7\x95\xa0\x9a\x2a\xaf\xc9\x83\x31\x32\x1b\xfb\xdb\xbd\x73\x2f\xf0\xc7\x16\xe5\x14\xe3\x75\x49\xa7\x0a\x2e\x7a\x23\xd6\x28\xe0\x64\x51\x9b\xf4\xac\xd9\x60\x59\xd4\x5d\x72\x0e\xc5\xae\xc1\xd2\xf1\x1c\x8e\x0b\x1b\xb3\xb9\x3a\x10\xa6\xdb\x6b\x5a\x53\x8c\x31\xda\x61\xdf\x8a\x67\xc4\x93\xa8\x2d\xe4\xf8\xd2\x7e\x8a\xcf\xf4\xfc\xba\xc2\x5e\x10\xd9\xed\x8f\x12\x3b\x42\x2f\xf5\x6d\xe4\x42\xd4\xbf\x74\xf1\x78\x53\x91\xfd\x4e\xb3\x70\xea\x7a\x5c\x92\x82\xe6\x6d\x1d\xba\xe1\x83\x5c\xb8\x67\x63\xf0\x79\x97\x33\x86\xc6\xdb\x7c\x88\x41\x23\x7d\x9a\x65\xf1\x1e\x54\x46\xde\xf7\xab\xe2\x7b\x8c\x79\xb5\x79\x93\x0e\x37\x22\x4e\x34\xc7\x40\xf1\x1c\x2a\x0e\x31\xea\xcb\x1d\xa2\x25\xdb\x74\xb5\xf8\x2b\xba\x9b\x77\x37\x92\xf0\xab\xc7\x9a\x6f\x36\x6c\x3e\x48\x06\xc7\xd0\xd0\x7a\x56\x41\x10\xc8\xc2\x5c\x7d\xdb\xaa\x03\x19\x02\x63\xd6\xd3\x73\x48\x7a\xcf\x89\x39\x26\x73\xc2\x72\x5d\xa8\x63\x4f\xc9\x10\xfc\xa8\x4b\x30\x23\xf2\xac\x84\x88\x65\x51\x27\xe1\x49\xbb\xa1\x21\x24\xfb\xa8\x06\x9b\x0e\x4d\xf4\xb6\x58\x02\xad\xd7\xe3\xb3\x3f\xfc\xcb\x5f\xff\xf0\xfb\x7f\xfa\xe1\x1f\xff\xf5\x87\xbf\xfb\xdd\x1f\xff\xe1\x6f\xfe\xe3\xdf\xfe\xfd\x0f\xbf\xff\xdb\x1f\xfe\xf9\x77\x7f\xfc\xdd\xdf\x9f\x8d\xe1\x7c\xff\x9e\x38\x82\x0d\x2d\x19\x3e\x99\xf8\x44\xfc\x08\x36\x3b\x1b\x02\xbd\xc3\x7e\xfe\xca\x3e\x62\xa2\x43\xf3\x74\xc9\xd8\xd6\x0d\x6e\x3d\x99\x87\xcd\xa6\x2b\x92\x2a\xcc\x5c\x0d\xe5\xb2\x76\xe5\x92\xea\x3e\x2c\x97\x5a\xb0\xb5\xd3\x1b\x7a\x88\xb1\xd9\xa0\xb3\x6f\xee\x08\x56\xea\x6d\xf7\x0c\x9a\xb6\xed\x43\x88\x76\xac\xd1\xc8\x48\x99\xaf\xa9\x5c\xaf\x6d\x5f\x73\x89\x35\x79\xa2\x7a\x7c\x32\x81\xf6\xd5\x5f\x52\x5e\x29\x67\xd8\x13\x2e\x7b\x0f\x62\x2f\x60\x43\xf2\xa1\xb3\x78\xf2\x69\xec\x9d\xc4\x1e\x47\xc7\x42\xfb\x8e\xe4\x0e\x4b\x19\x60\x87\x4e\x65\x3f\x7b\xfe\x94\xc4\x3d\x1a\x2f\x8f\xd7\x11\xbf\x1d\x04\x7d\x96\xde\x7a\xec\x3c\x99\x07\x15\x7d\x6d\x75\xbf\x9a\x10\x26\x60\xd0\xd1\x66\x63\xac\xcc\x24\xc3\xd7\xa5\x67\xaf\xa9\x98\x65\xb4\xa0\x52\x7f\x65\xd1\xb7\x07\xd0\xfa\xec\x9a\x03\xb2\x7a\x4d\xe5\xc7\x5a\x80\xc7\x98\x05\xe7\x07\x92\xc9\xdd\xa4\xf6\xf8\x0c\x5e\x95\xf9\x4a\x7d\xb1\x09\x11\x56\xbd\x85\x49\x6a\x89\x25\x5a\x4d\x30\x75\x11\x23\x1c\x8b\x79\x06\xbc\xcf\xa8\x28\x5b\xc9\xa5\x5f\xe8\x59\x15\x4c\xa2\x4d\x91\x35\xea\xb3\x32\xe8\x9b\xb2\x92\x0a\x01\x67\x63\x33\xa3\x5a\x7e\xaf\x68\x3a\x60\x19\xb4\x12\xab\xb3\x7f\xe6\x60\x6c\xbb\x7d\x2f\x0e\x3b\x7d\xad\xd7\x37\x98\xa7\x1d\x4e\xd4\x0e\x66\x6a\xd5\x11\xc1\x7b\x12\xce\x70\x75\x18\xfa\x92\xe2\xe3\xed\x57\xed\x46\x29\x37\x1d\x43\x2b\x28\x82\xe0\xb3\xfb\x68\x04\x8a\xb2\xad\x15\xfb\x0c\x3b\xb8\xc0\x83\xfb\xa2\x66\x8c\x95\x80\x02\xcb\xc2\x9f\x35\xf3\x39\xe5\x31\xe2\xea\x17\x33\x83\x5f\x2e\x60\x7c\xd0\x60\xf7\x33\x63\x07\x3f\x3c\xe2\xbe\x3a\x7a\x6c\x3e\xee\xe5\xd3\xdb\x9b\x8f\xb9\x2b\x61\x0b\xca\x70\x3c\xe8\x18\xa6\x7b\x36\x37\x2f\x11\x17\x44\xb4\x1c\x81\xe0\xf7\xfa\xd9\x7d\x45\xce\x78\x6d\xbb\x1f\xb0\x3b\xf6\x52\x64\xdf\xf5\xc6\x9b\x66\xea\x18\x00\x71\x40\x75\xdd\xd0\x9b\x66\x2a\x66\x9c\x4d\xf5\x37\x5f\x76\x6e\x30\xfa\xdf\xd2\x40\x4f\xae\xaf\x0f\x8a\x64\x7e\xef\xf7\x54\x40\xe8\x0b\xb1\x50\x8b\x4d\x0e\x72\x96\xe1\x10\x74\x26\xfb\x11\xf7\x6e\x07\x7a\x6c\xb0\x5e\x77\x3e\x44\x41\xee\xa8\xb7\x61\xc7\x7e\xea\x05\x87\x1c\xf1\xa9\x97\x16\xf2\xc1\x8b\x25\x9d\x4f\xda\xa6\x8e\xc0\xa6\x5c\x3f\xf1\xf7\x7a\xe0\x13\x2f\xfb\x21\x98\xb2\x83\xff\x7e\x5f\x7a\x69\xd7\x75\xf0\xa6\xa8\x61\x52\xb7\xc7\x17\xd0\x5d\x33\xde\xaf\x70\xcb\x3e\xe9\xf3\x2e\xb8\x51\x5e\x0f\xa3\xaf\x46\xe6\x86\xfa\x55\xd9\xdb\xc7\xcb\xab\xb5\x3d\xb6\xea\x78\x4e\xfd\xfe\x8b\xb7\xcb\x5e\x29\xff\xe9\xdf\x7f\xf1\xe0\xb8\xa2\xe0\xc3\xc4\xf5\x96\x07\x00\x67\x5d\xea\xb6\xa4\xdd\xf9\x9c\x8b\x99\x69\x3b\x97\x30\x34\x8f\x17\xcd\x46\x92\xad\xd7\x5d\xb2\xf7\x67\x55\x0a\xb1\x30\x02\xf0\x85\x58\x0c\x07\xb1\x77\xeb\x3b\xfb\xae\x37\xee\xa9\x12\x2f\xc4\x22\x7d\xae\xf4\x5e\x7f\x5d\x63\x5f\x1a\xde\xf2\xf2\xc0\x5d\x49\x43\x1e\x13\xe9\x6c\x0b\xd3\x7a\xf8\x65\x3b\x18\xa9\x16\x7c\x44\x61\x1a\x06\xca\xa0\x9a\xfe\x06\x0b\x2e\x4c\xac\x51\xb8\xfd\xb2\x5f\xd4\x78\x41\xca\x95\xce\xaf\x60\xd6\xcd\x16\x60\xe8\xcf\xf1\x35\x18\x17\xc0\x24\x07\xa2\x87\x02\xb0\x14\x0c\x53\x6c\xe6\xf6\x8e\x11\x6a\x83\x78\x0f\x64\xc2\x70\x5e\x63\xb6\x8f\xa0\x9c\x75\x34\x98\xcb\x01\xf4\x07\x1f\x2d\x9d\x3b\x3c\xa8\xe7\xc7\x25\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\x4a\x0d\x0d\xae\xc8\xc4\xa3\x6d\xdb\x09\x35\x34\xde\xe8\x03\xdf\x6f\xc0\xe5\xff\x57\x7f\xbf\xa1\xc5\x6e\xd7\x8a\x18\x54\x40\xd7\xcd\x34\x67\x62\x49\xf9\x29\x25\x32\xc3\x1f\x6f\xf0\x05\x82\x6f\x0b\x78\xb2\xc7\x96\x6d\xec\x68\xf2\xfd\x75\x1b\x6b\x63\xff\x0f\x0f\x9b\x6c\xf1\xd0\x4b\xfa\xe0\x56\x67\x2a\x37\xdc\xd7\x19\x82\xa0\xd7\x58\xf1\xb5\x47\x64\x3a\xf6\x1c\x05\xbf\x22\xe3\x39\x3d\xa4\x33\x76\x4b\x31\xb6\x2b\x31\x3a\x95\xaf\x4e\xa0\xd8\x93\xd1\x5b\x77\xd1\x2b\x72\x8d\x2b\xe5\x21\xb2\x55\x17\x71\xfa\x17\x16\x70\x61\x43\x29\xe4\x21\xb1\xef\x32\xc7\x03\x54\xe9\x95\x7d\xc7\x7d\x61\xc1\xea\x85\x3f\xd9\xb7\x14\x06\x50\x3e\x42\x55\xc1\xb0\xae\xc2\x82\xb9\x23\xd4\x10\xe5\xdc\xce\xb7\xa3\x8e\xc6\x63\xd8\xd5\x48\xe3\x31\x6c\x3c\xe8\x76\x70\xaa\xaa\xe6\xed\xe0\xcf\x3f\xdf\x7d\x97\x62\xde\x52\x7d\x01\xf2\x3d\x33\x77\xc1\xde\x47\x03\xd3\xd8\x5c\xee\x2e\x10\x5b\xb2\x6b\x11\xe9\xc9\x7f\xf6\x7e\x21\xe2\x58\xa5\xdc\x97\x98\xdc\xaf\x95\xfb\x3f\xc5\xe4\xf3\xb0\xd1\xcd\xfd\xaa\xd9\xe4\xc8\xf6\x68\xe6\xee\x25\x1b\xf7\xff\x93\x63\xea\x74\x4c\x84\x44\xb9\x0e\x03\xca\x1a\xb7\xda\x4a\xfa\x17\x62\xb1\xad\xab\xcf\x15\xae\x3f\x8d\xc2\x3e\xd6\xc6\x3a\x94\x1d\xb4\x24\x1f\x54\xd0\x6e\x22\x75\x22\x1c\xb8\xc4\xdb\x86\xff\x1c\x00\x56\x36\x4a\x51\xd7\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27074, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xe, 0x68, 0x92, 0x42, 0xd4, 0x96, 0x34, 0x4f, 0xe5, 0x8d, 0x47, 0x8e, 0xe, 0xc2, 0x4e, 0x78, 0xa, 0xde, 0xc2, 0xc8, 0x13, 0x7, 0xb4, 0x96, 0x40, 0xd7, 0x5, 0xfb, 0x46, 0xc1, 0xf4, 0xe1}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27095, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x46, 0x3c, 0xda, 0x81, 0x7d, 0x3a, 0x1c, 0xf6, 0x95, 0xe1, 0xba, 0x3c, 0xc5, 0x4f, 0x5f, 0xbe, 0x49, 0x2a, 0x96, 0xcc, 0x78, 0x8c, 0x45, 0xf1, 0xcc, 0x1, 0xf1, 0x9b, 0x33, 0x5a, 0xaa, 0xb3}}
 	return a, nil
 }
 
-- 
2.43.0


From 3a54039632178d614c464d98a2cd1bc14261c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 20/44] fix: call gRPC methods by their protobuf names in the
 gRPC client

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  |  6 +-
 gengokit/template/template.go                 |  8 +--
 svcdef/svcdef.go                              | 57 ++++++++++++++++++-
 3 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index cd372ed..51888f7 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -258,14 +258,13 @@ func GRPCMetadataToContext(ctx context.Context, md metadata.MD) context.Context
 // responsibility of the caller to dial, and later close, the connection.
 func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption) ({{.Service.Name}}Server, error) {
 	{{- with $te := .}}
-		{{- with $pkgName := $te.PackageName}}
 			{{- range $i := $te.Service.Methods}}
 	var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
 	{
 		{{ToLower $i.Name}}Endpoint = grpctransport.NewClient(
 			conn,
-			"{{$pkgName}}.{{$te.Service.Name}}",
-			"{{$i.Name}}",
+			"{{$te.Service.FullName}}",
+			"{{$i.PBName}}",
 			EncodeGRPC{{$i.Name}}Request,
 			DecodeGRPC{{$i.Name}}Response,
 			{{GoName $i.ResponseType.Name}}{},
@@ -273,7 +272,6 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 		).Endpoint()
 	}
 			{{end}}
-		{{end}}
 	{{end}}
 
 	return Endpoints{
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index ed4c004..06a0d3b 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.095kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.037kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\xa2\xc8\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x2f\xe0\x39\x91\xd4\x7f\x8b\xcf\x9b\x4d\x18\xd6\x64\x76\x47\x16\x14\xdf\x5c\xeb\x9f\x2f\x49\xa1\xde\x8c\xc7\x70\x6b\xe7\x80\x59\x55\x4a\xc2\x4a\x01\x05\x95\xcb\x2a\x13\x20\x2b\x28\xc8\x1d\x05\x56\x66\xec\x9e\x65\x0d\xc9\x81\x96\x59\x5d\xb1\x52\x0a\x98\xf3\xaa\x00\x41\xf9\x3d\x9b\x51\x31\x42\x34\x38\xfd\xd0\x50\x21\x81\x94\x19\x70\x2a\xea\xaa\x14\x14\xe4\xaa\xa6\x0a\x12\x76\xc5\x15\x55\x82\xb6\x50\x46\x40\x04\x3c\xd0\x3c\xc7\xbf\xb4\x9c\x55\x19\xe5\x02\x01\x20\xbc\x8c\x9a\xe7\x79\xc5\xcd\x40\x05\x6d\xa4\x1a\x08\x52\x6a\x0e\x55\xc3\x41\x34\x75\x5d\x71\xa4\xb4\xe4\xa4\x14\xf8\x1b\x31\x63\x24\x67\xbf\x25\x92\x55\x25\x42\x9b\x57\xbc\x20\x52\xa4\x61\xc8\x0a\xd5\x23\x0e\x83\x68\xba\x92\x54\x44\x61\x10\xe1\xda\xe9\xa3\xc4\x9f\x0a\x0d\x56\x2e\xc6\xbf\x11\x55\x89\x0d\xf3\x42\xb5\xb3\x4a\xff\x77\xcc\xaa\x46\xb2\x1c\x1f\x4a\x2a\xc7\x4b\x29\x6b\xfb\xbb\xe1\xaa\x59\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x4e\xdb\x33\x91\xe3\x3c\xd5\x62\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x0e\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\x7b\xe2\x07\xce\x97\xeb\x60\xd1\xf1\xe6\xc2\xb3\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\x25\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x48\x9f\xf4\xa9\xac\x98\x6e\xe9\x2c\x33\x7d\x49\x1f\x6e\x28\xbf\xa7\x5c\xbf\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x33\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xf6\xd3\xb2\xa1\x96\xf1\xd8\x55\x89\xa4\xf4\x69\xa9\xc6\xb5\x42\x26\x7d\x6e\x7e\x62\xb3\x11\x1f\xe9\x15\xfe\xc5\x06\x7b\xa4\xd3\x1b\xf5\x03\x9b\xbc\x63\x9a\xde\xda\xdf\xf8\xa2\x3d\x7e\xd8\x9b\x95\x8b\x5f\x91\xbc\x51\xeb\xf6\xe4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x75\x12\xd8\xa6\xc3\xff\xc6\x4a\x83\x7e\x5b\x02\x41\x7d\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x9a\x9a\x37\xe5\x0c\xa9\x20\x40\x2e\x89\x84\x92\xa2\x96\xaa\xa0\xaa\x95\x6d\x00\x15\x8e\xad\x29\x3f\xb7\x6a\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x55\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\xe2\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa6\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x95\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\xa8\xee\x29\x20\xb3\xb1\x19\x75\x56\x85\x42\x91\x22\x9c\x76\x05\x9a\x07\x80\xb5\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe5\x8c\x96\xb2\x4b\x5d\x59\xc1\xac\xca\x73\x3a\x93\x9e\x81\x92\xaf\x60\x56\x95\x1a\x1c\xcd\x3c\x73\x85\x95\xb8\x20\x04\x28\x58\xb9\xc8\xb5\x61\xa2\x69\xc5\x90\xc2\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x93\x19\x1d\xda\x09\x04\xe6\x26\xeb\x37\x92\x1a\x9c\xac\xb5\x4a\x94\xb1\x80\x07\xf0\xd2\xac\x67\x56\x15\x53\x56\x2a\x3a\x15\x06\x45\x6f\x63\x47\xc6\x94\x92\x0d\x2f\x81\x49\xa4\x2b\x22\x38\x23\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x3b\x04\x5d\x87\xc1\x9b\xd2\xad\x8f\x66\xeb\x75\x6a\x47\x68\x13\xd0\x48\x82\xf5\x9a\x93\x72\x41\xe1\x53\x06\x17\x13\x70\x7d\x5e\xe8\x2d\x43\x39\xb6\x5e\x7f\xca\xcc\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\xb5\x70\xd5\xd6\xa5\x6d\x16\x87\xa7\x40\x06\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x4c\x3e\x82\xb1\xd2\x50\x35\xe0\xdf\x11\x32\xcc\xd9\x7a\xfd\x75\x85\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xdb\x55\x6d\x17\x98\x40\xbc\xd5\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc3\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\x13\x28\x59\x8e\x10\x02\xb3\x5f\x25\xcb\x15\x90\x30\xd8\x84\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xbd\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\x76\xb7\x0d\xf7\xcd\xb6\xde\xeb\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\xa7\x79\x7e\xf5\x38\xa3\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x2f\x58\x96\xe5\xf4\x81\x70\xed\x05\xbe\x11\xd6\x2f\x44\x27\xa8\xae\xf3\x15\x8a\x18\x14\x9b\x12\x81\x17\xae\xb7\xf2\xba\xe8\x3d\xe5\x2b\xb7\x6d\x78\x5e\x50\x82\x18\xb7\x4d\xc1\x7b\x55\xa3\xd6\x20\x79\xbe\x1a\xb9\x7e\x02\x66\xa4\x84\x29\x55\xba\x86\x66\x38\x6c\xba\x82\x12\xc9\x2e\x2b\x6c\xa7\x8f\xb3\xbc\xc9\x68\xa6\xbd\xc0\x29\x45\x14\x70\xcd\x35\xcd\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x6e\x24\x91\x8d\x88\x46\x10\x5d\xb3\x72\x11\x25\xee\xdc\x9f\x39\x82\x24\x83\xe3\x1d\x86\x1e\x55\x46\x2d\x36\x69\x9a\x0a\x65\x16\x28\xe6\x61\xa5\x69\xbe\x98\x40\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xf5\x06\xd9\x6b\xfb\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\x58\x6f\x46\x61\xe0\x9b\x91\x9b\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x1c\xde\x8f\xa0\xba\xc3\xd7\x16\xb1\xb7\xf4\xf1\xdd\x13\xf8\xa4\xba\x43\x6c\x83\xa0\x26\x25\x9b\xc5\xad\x85\x37\x8f\xa3\x2b\x0b\xc2\xae\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe3\x9d\x4f\xa9\x4c\x7a\x44\x2a\x49\x0c\x3f\x67\x34\xa7\x92\xc6\x16\x03\xf5\xae\x5d\x00\x2b\x67\x2d\xfa\xb6\x0f\x1c\x4f\x28\x36\x57\x20\x26\x13\xe8\x90\x4c\x41\x08\x82\x5e\x51\x0a\x13\x0f\xf3\xb8\xb7\x0b\xe2\x1e\x6c\xb6\x49\xae\x8f\xdd\x77\x64\x4a\x73\x9a\xb5\xdc\xa0\x43\x28\x0b\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x58\xd2\xd2\xbd\xad\x3c\x76\x35\xc0\x34\xd7\x8d\xf4\x29\x33\x07\xa1\xd1\x9d\x41\xc7\x65\x88\x0e\xee\xb0\x19\x1a\x35\x9c\xcd\x94\x99\xd5\x2e\x03\x1e\x96\x6c\xb6\x54\x67\x48\xd0\xb2\x0f\x05\xa3\xc9\xcd\x68\x6b\xc7\x54\xdc\xe8\xf1\xdd\x55\xe1\x21\x89\x35\x03\x8f\x76\xa5\x70\x8f\x60\x0e\x87\xd6\xf5\xd1\xb2\x69\x07\xa9\x91\x59\xa7\xa2\x38\xa7\x33\xca\xee\x51\x34\x51\xbd\xc4\x6a\xde\x59\x77\x0a\x37\x94\x3a\x30\x1e\x14\xf5\xc2\x1a\xa2\x06\xe1\xab\x47\x44\x14\x39\x32\xa3\x92\xb0\x5c\xa0\x9d\x6c\x8f\x13\x02\xb1\xc6\x2e\xc9\x99\x5c\xa5\xfb\x44\x48\x67\xed\x71\xf1\x23\x28\xfa\xbf\x72\xe6\x7f\x8e\x9c\xe9\x0c\x1b\xc1\x49\x62\xe7\xf8\x00\xc5\xb1\xae\xe7\xd7\xaf\xaf\x2f\x71\x9d\x94\x9f\xec\x7b\xa2\x19\xe7\x0d\xc7\x70\xad\x68\x8d\x01\xb7\x3f\x40\xee\x09\xcb\xc9\x34\xa7\xda\x6d\x58\xbc\xbe\xbe\x84\x01\x67\xc0\x1c\xa7\x2e\x64\xe7\x21\x8a\x56\x36\x8c\xa0\x52\xb6\x83\xc0\xf3\xd0\x89\xc5\x28\xf6\xa6\x5c\x9b\x16\xc9\xd0\x44\xb8\x5d\xc2\xeb\x28\x90\x27\xde\xbe\x1b\x86\x84\xdc\xdb\xf7\xf6\x19\x9d\x57\x9c\xc6\x88\xed\x0b\x13\x53\xba\xad\x8c\xf5\x99\x8c\x70\xd7\xb6\xe6\x99\xa0\xe1\x44\xcb\x2c\xee\x34\xbb\xf5\xa4\x69\x9a\xa8\x40\xc7\x7a\x0d\xb7\xd5\x77\xd5\x03\xe5\x2d\x23\x22\xa9\x70\x73\xad\x69\xf8\x39\x62\x84\x2f\x29\x5f\xa3\x9b\x74\x90\x7b\xd7\x6b\x0b\xd3\xb1\x9c\xf1\xcc\x2f\xa0\xbb\x3a\x17\xa9\x89\x91\xaf\xdd\x0e\xf4\x31\x2b\x5a\x24\xc1\x73\x15\x30\x47\x32\x78\x3d\x8c\x91\xac\x3a\x5c\x95\xbd\x1d\x8c\xcb\x83\x3d\x3a\x04\x49\xd3\x14\x87\x21\x09\xb7\xce\x00\xca\xe0\x76\xdd\xdb\x1e\xb4\xb3\xd1\xfb\xb7\xdd\xd9\xfb\x5a\xd9\x79\x70\xfe\x04\x5e\xeb\x10\xad\x01\xb6\x88\x6d\xda\x3d\xf3\xde\x38\x5d\x26\x6c\x81\x82\xd7\x43\x55\x56\xed\xaa\x8f\x5f\xf0\x41\x8c\xd5\xd1\x8b\x05\x9c\xb5\x53\x25\x2d\xf8\x03\xde\x30\x3a\x4b\x3f\xad\x3b\xfc\x1e\x3d\xa6\xba\xe3\x50\x0d\x11\x54\x2d\x46\xf1\x96\xef\x69\x9d\xe8\x1e\xd7\x1f\xe9\x19\x1b\x42\xeb\x03\x70\x98\xca\xe3\x31\xec\x3b\x2b\xc0\x50\x46\x3a\xd6\x50\x81\xe3\x54\x0f\x30\x3d\xbe\xc2\x6d\x52\xc1\x23\x4c\xf4\x50\x2e\x85\x8e\x2d\x19\xb9\xba\x43\x23\xe7\x02\x63\x84\x07\x03\x58\xfc\x3c\xab\x0a\xc2\xca\x7d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x2b\x1b\xf3\xf2\x03\x64\x5a\x4c\xef\x5b\x47\xfc\x7e\x97\x47\x70\x2d\xaf\xe9\x87\x96\x27\x95\x2f\xee\x3d\x75\xa3\x21\xca\xfb\x36\x63\x8e\xf1\xbe\xdd\x4e\x7e\xd8\xb3\x4d\x57\xe5\xd1\xdb\xb4\x57\x62\xf5\xee\x93\x1e\x61\xbb\x0c\x6d\xd4\xe1\x2d\x30\x53\xa8\x0d\xdb\xb3\xad\x75\xbe\x3a\x6a\x9f\xf6\x2e\xa4\x6f\xa3\xfa\xc2\x23\xfb\x76\x4a\xd4\xb8\x55\x76\xd4\x11\xe7\xc8\xdb\x2c\x51\xf7\xed\xd6\x37\x34\xc7\x58\x7b\xa8\x19\xad\x57\xbb\xf6\xcb\xa1\x22\x03\x9b\xdb\x49\x5f\x3c\x4f\xb6\x3b\x20\xbe\x28\x4d\xef\x46\x70\xdf\x9a\x81\x85\xb3\x5f\xef\x3b\x71\x19\x95\xa2\xa6\x70\x47\x57\x6a\xbb\x33\x34\x74\xa7\x95\x5c\x22\x8d\xed\x2c\x26\xb9\x0b\xf1\x5d\x62\x7c\x12\xec\x9a\xe7\x90\xe3\x7e\x19\x28\xc4\x78\x62\x2a\x06\x7b\x49\xca\xaa\x64\x33\x92\x7f\x43\x49\x46\xf9\x2f\xe8\xca\x3a\x2c\x38\x91\xa8\x4c\x64\x58\x1a\xff\xcf\x82\x98\xcd\xa8\x0d\x88\x50\x26\x97\x94\x9b\x99\xf1\x3d\x92\x62\xe2\xd6\xfa\x3d\x93\x4b\x95\x9c\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\x71\x00\xbb\xf8\x2e\x69\x21\x18\x57\xc0\x6c\xdf\x4c\x3e\x2a\x8d\x6c\x0d\xc3\xfd\xff\xd4\x3e\xea\xf0\xf3\xc9\xc6\xe6\x4b\xfa\xe0\x8d\xd6\xd3\xab\x54\x84\x89\x27\xc1\x94\xcc\xee\x70\x7b\x56\xf6\xcc\xe8\xb8\x3d\xae\xb5\xa4\x2a\x0d\x92\xc2\xb7\x12\xf7\xd1\x64\x00\x0c\xbb\xb2\x29\x43\x47\xce\x6e\x81\x09\x70\xcb\x0a\x32\x46\x72\x1d\x05\xcf\x89\xa4\x1c\x66\x98\xa2\x42\xcf\x9c\xfa\x30\x35\x83\x76\xb0\x8b\xf1\xb5\xd6\xa2\xa9\xc6\xf7\xb2\x2a\xcb\x3d\x16\xab\xee\x64\x2d\xd6\x78\xc0\x64\xf5\x8f\x1c\x1a\x0a\xdb\x01\xd8\xc0\x6b\xad\xef\x16\x78\xd2\x6c\x1c\xb6\x5b\x79\x11\xec\xba\x3a\x7e\xd4\xb5\x95\x81\xc1\x3d\xe1\x7d\xa2\xc7\x1a\x7e\xbb\x7e\x6a\x18\xac\xfb\xad\x4c\x37\x64\xb2\x6b\x67\x1a\xaa\x29\xf6\x44\x42\x59\x77\xd4\x2c\x62\xb3\x49\xfb\xc2\xc2\x91\xeb\x67\xe7\x88\xf6\xd9\x99\xad\x21\xfa\x9c\x1e\x32\x44\x0f\x48\x2f\x1d\x83\x0b\x5a\x83\x1d\x1f\x13\x47\x83\x58\x39\x9b\x8a\xc8\xc6\x6a\x6d\x7f\xd9\x1f\xee\x00\xd9\x41\xe2\xa0\xfd\x0e\xe7\x06\x94\xc3\xd9\x8e\xbd\xc0\x64\xc8\x1e\x9a\x8f\xda\x79\x83\x8d\x15\xb6\x28\x64\x91\x06\x60\x4e\xd4\x8f\x37\x5f\xf6\xe8\xc5\xe7\xf4\x18\xbd\xb8\x5f\xd3\x1d\x6b\xbe\x18\x1d\x34\xa0\x17\xb5\x50\x30\xa7\xf6\x39\x3d\x51\x2f\xe2\x62\x5e\x2b\x64\x8e\x54\x8c\xd8\xd5\x19\x31\xa8\xae\x4f\x52\x8d\x75\xbe\xea\xd3\x8d\xfe\xb6\xfd\x78\x73\x66\xd8\xea\xbc\x2a\x8f\xb0\x3a\x0f\x6f\x88\x67\x7c\xee\xd9\xe1\xbd\x56\x67\x67\xd7\xf6\xad\xa3\xdf\x98\x31\x4b\x3c\x6e\xcb\x4e\xcd\xf9\xec\xb7\x3a\x0d\x16\x4a\x1b\x8b\xdb\xca\x37\x64\xf4\x49\xe9\xd3\x04\x66\x1e\x3c\x27\x9a\x51\xf7\x40\x89\xef\xe8\x4a\xc0\xdb\x77\x36\x26\x78\x00\xde\x51\x39\xb3\x22\x83\xb3\x43\x46\x94\xd2\x0d\x35\x61\xbc\x9d\x3c\x0c\x6c\x84\xf0\xae\x35\xad\x14\x7a\x6b\x13\x38\xbb\xb7\xd1\xc1\x99\x7c\x4c\x15\x4d\xe2\xbb\x24\x35\x91\xd0\xe4\x09\xd8\x28\x61\xa0\x01\xbb\x50\x89\x7a\xd4\x86\x8c\x8b\x8c\xa1\x10\x45\x98\xea\x5d\xc7\x6a\x3b\x2b\x32\x8c\xb8\xd9\x05\xfc\xbc\x62\x65\x7c\x56\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xc6\x5b\x12\x0b\xce\x50\x06\xad\x1a\x13\x6e\xd3\x3b\x79\x6c\x30\xed\x9b\xdb\xdb\x6b\xe3\x67\xd8\xb6\xc3\xff\xc6\x61\xa8\x32\xf9\x9a\xca\xa5\x62\x2f\x98\x40\x44\xea\x3a\x67\x33\x55\xbb\xa2\xca\x01\x9f\xc0\x6c\x49\xb8\xa0\x72\xd2\xc8\xf9\xf9\xcf\x22\x17\x83\xc3\x59\x8d\x23\x6c\x12\xf6\xc8\x58\x4b\xd3\xa2\xce\xec\xe1\xd8\x1c\x02\xab\x4a\xa8\x39\xcd\xe8\x9c\x95\x34\x53\x65\x17\xc2\x9c\xb9\xad\x69\x0e\x46\xe4\xba\x55\x3f\xdd\x88\x9c\x5f\x0f\x62\x6d\x19\x36\x87\x54\xc1\x57\x66\xbf\x27\xb7\xb6\xa2\x42\xc8\x3b\x6f\xdf\x0d\x43\x57\xfb\xdf\xf7\xda\x84\xe9\xf4\x1c\x68\xd7\x8a\x4e\x94\xae\x7f\xd0\x15\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\xe7\x92\xf2\x78\xfb\x8d\xbc\x6c\xb7\x36\xf6\xb6\x39\x51\x80\x76\x57\x79\x54\x8c\xd0\x04\x8b\x54\x3c\xb0\x40\xc2\x14\xcd\x23\x9a\x53\xaf\xab\x06\x71\x48\x42\xcf\xa2\x30\x29\x8e\x8b\xc9\x20\x99\x5d\xd7\x29\x16\x93\x94\x0b\x04\x68\x86\xa5\xcf\x74\x93\x09\x80\x17\x76\x5c\x8c\x46\x9a\xe9\x8e\x65\xbf\x53\xf8\x2b\xb8\xad\xde\x60\x59\xe3\x66\x13\x25\xe9\x35\x91\xcb\x4e\x1f\x6c\xb8\xa5\x45\x8d\xf6\xb4\xea\x61\xd9\x69\xa0\x48\x4c\x85\x1e\xbb\xb1\x47\x83\xd1\x8e\x81\xe3\xec\x3a\x5c\x9e\x37\xa5\x4a\xc1\x38\xf5\xa0\x3b\xea\x1d\xc5\x8e\x5f\xeb\x4c\x9a\x55\xc3\xfa\x75\x5f\x18\x32\x50\xc9\x85\x36\x3c\xe7\xff\x34\x42\xa3\x30\x46\x95\xcf\x34\x3a\x65\xa7\x3c\x0e\x6d\x16\xd8\xe4\x9b\x9d\xf1\x7b\x7c\xcf\x47\xe8\xb5\x64\x74\x4e\x9a\x5c\xa2\xb6\xd3\x0c\x82\x27\x52\x05\x29\xab\x39\x6c\xcb\x82\x11\x10\x98\x56\x99\x72\x1c\x51\x36\x68\xb3\x1f\xdd\xc7\x48\xcd\x13\x39\x8f\xf3\x1e\xa5\x2c\x82\x52\xed\xa9\xc2\x2e\x4e\xb4\x5f\x43\x40\xa8\x84\x38\x20\x3d\x10\xd4\xff\xff\xf2\xcb\x14\xbe\x35\xc9\x33\xec\xe9\x47\x57\xf5\xb9\xa1\x5c\xd5\x5b\x63\x8f\x9a\x57\xf7\x0c\x5d\xe2\xa5\x7a\x83\xb5\x04\x79\x8e\x19\x7a\x85\xad\xce\x59\x62\xbf\xd6\x26\xf3\x41\x23\x14\x0f\x3a\xae\x22\x7d\x41\xb8\x58\x12\x55\x27\x66\xf1\x2f\x74\x13\x26\xf9\x45\x33\x9b\x51\x9a\x09\xed\x83\xfd\xfc\xe6\xd5\x4b\x53\xb6\x9d\xd9\x1a\x6b\xeb\xc4\xa9\xb5\x3a\x74\x30\x7f\x3a\xbc\x2c\x5d\x13\x80\x55\xf3\x7c\x64\x5d\x43\xb7\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\x4b\x33\x2d\x24\x7d\x09\xd1\x67\x88\xb8\xf2\x92\x11\x3c\xe8\xaa\xb8\x2e\x1b\x28\x9b\x11\x77\x75\x04\xef\xf1\xf8\xf9\x24\xd1\xe2\x07\x53\x94\x35\xe5\x6b\xb5\x8b\x17\xb8\x16\xbb\xa1\x68\x89\xb0\xb9\xa5\x16\x12\x50\x2b\x5a\xec\x12\x77\x69\xdb\xea\x59\x36\x07\x7c\xf5\x4c\x4d\x69\x86\x5e\xe9\x68\xab\x03\x64\xc7\x21\xb9\xe3\xe4\x89\x9d\x01\xbb\x4d\x3c\x9d\x8b\x68\xc3\xc4\x81\xb3\x81\x82\xe0\x21\xd5\x6c\x13\x27\xe9\x0d\x95\x71\x64\x04\xe1\xf9\xed\xaa\xa6\xd1\xc8\x57\x79\x7a\x01\x4b\xcb\x64\x3e\xfe\x5d\xf1\x60\xf9\xb0\x5d\x07\x5a\x1d\x9e\xc9\x61\x61\x98\x9e\x22\x56\x84\x0d\xb6\x71\xb9\x1b\xf5\xf4\x4c\xbf\xa6\x32\xbe\xb3\xa9\xc4\x4d\x18\xa8\xa3\x71\xa1\xeb\x58\x53\xcd\x0e\xdf\xa2\xe9\x58\x92\xdc\x53\x12\x0a\x77\x31\xdb\x83\xb5\xc7\x66\x2d\xe2\x0a\xf8\x04\xc4\xcc\x40\xc6\xd7\xc6\x7d\x7c\x48\x15\x53\x18\x8c\xb1\x63\xe2\x1a\x63\xa4\x76\x82\xf2\xa6\xe5\x3b\xed\xcb\xf0\x78\xda\xcc\xe1\xed\x3b\x2c\xcd\x4d\x0c\xaf\xaf\x43\x65\xab\x3d\x80\xcf\x42\x2e\x3a\x6e\xf9\xec\x4d\x69\x76\x16\x21\x8c\xe0\xf3\x87\xe4\xc9\x76\xf4\x5c\x5b\x29\x82\xfd\x96\xc2\x04\x7e\xf6\x7f\xff\xfc\xcf\x34\x0b\xe5\xb4\xc4\x31\x09\xfc\x85\x7e\x87\x5d\x03\x44\x63\x02\xd3\x66\xfe\xf6\x02\x1b\xdf\x19\x35\x67\x64\x25\xd6\x99\x28\xba\xcd\xe3\xc8\x4a\x07\xc0\x45\xa9\xd4\xef\x05\x06\xbe\x30\xf3\x5b\xa3\xb9\x03\x65\x55\x9e\x23\x5f\x39\x43\x1e\x3b\x46\x23\x04\x6e\xd2\xba\x06\xaa\x29\x15\x7e\x49\x1f\xe2\x07\x7d\x2e\x14\x8d\x94\x0c\xf5\xd7\x6e\x0b\x0d\xd6\x61\xa0\x7a\xe1\x33\xca\x97\x5f\xe3\x2c\x17\x46\x80\xfe\xda\x88\x73\xdc\x77\xd3\x8b\x48\x26\xe6\x0c\x6f\x94\x2c\xa9\x93\x86\x4a\x90\x7a\x9b\xdb\xba\x19\x02\x98\xba\xfc\x61\x6f\xc0\x1c\x53\xe1\x9d\xea\xb4\x94\x37\xa9\x43\x55\xa1\x85\xb7\x16\xec\x54\x38\x53\x18\x58\xd9\x0b\xe0\xe7\xff\x9d\x49\x6e\x79\x24\x5e\xb6\x40\x13\x4f\xe6\xc5\x09\x74\x2b\xe9\x96\x69\x3b\xc3\xc0\xe8\xf6\x58\x61\xa3\x39\x3b\x1d\x10\x06\xa9\xb0\x13\x79\xdf\x8e\x30\x1c\xb4\x49\xbc\x20\xd5\x01\xa3\xc4\x05\x25\xf6\x6a\xff\x6d\x27\x57\x61\xdf\x9f\x5a\x51\x19\x58\x7d\x07\x08\xc7\xa0\xf0\x3b\x37\xba\xc6\xf7\x5f\xed\x3c\xd7\x84\xd3\x52\x1a\x9f\xd0\xf1\xa9\xaa\x4f\x43\x75\x84\x58\xd9\x56\x05\x19\x39\xf8\x50\xe4\x3e\xf0\x42\x14\x7b\x97\xd5\xeb\xf3\xc2\x99\x51\x30\xaa\xcb\xb0\xbf\x1b\x64\x74\x4e\x39\xf0\x14\xa5\x76\x7a\x89\x21\x4e\x14\x40\x4a\x62\xa0\x2f\xdc\xba\xbf\x5b\x6b\x35\x90\x51\x72\xa3\x11\x84\x07\xde\xa5\xea\x4c\x59\xff\x6b\x4a\xb2\xa7\x79\x1e\x6b\xe0\xc7\x95\x3e\xda\x5a\xff\x39\x2a\xbc\x11\x44\x46\x12\x70\x54\xb6\xd6\xe0\xc1\x95\x59\x72\x46\x46\x52\x6f\x09\xa2\x2f\xd5\xda\x82\xc6\x0a\x35\x74\x8d\x2e\x26\xe0\xee\xb6\xb4\xe2\xce\xd8\x79\xaa\x7b\xf0\x34\xcf\xab\x87\x6b\xc2\x25\x23\x39\x46\xd5\x24\x6f\x8c\x51\xf8\x9c\x89\x19\xe1\xd9\x9b\x52\xdd\x43\xba\x68\xdf\xd8\x9a\x10\x5c\xfa\x04\xfc\x09\x77\x44\x2a\x66\x25\x77\x84\x6a\xbf\x58\x1d\x16\xac\xbd\xa2\xd5\xa0\xd1\x21\xa6\x3b\xb0\xeb\x1e\xb2\x1a\xea\x7d\x94\xcc\xd5\x04\x09\x3c\x85\xf8\x8c\x64\x86\x1d\xcc\x3b\x44\xa0\x45\xcb\x79\xeb\xe8\x51\x5e\x13\x4e\x0a\x61\xdd\x95\x5f\x11\x2e\x62\x8e\x7b\x88\x77\x3d\xda\xf7\xe8\xdb\x7f\x68\x28\x5f\xb5\xdd\x79\xfa\xe6\xf5\x77\xe9\x2f\xb1\x31\xb6\x03\xbc\x2e\xa1\xef\xc3\xe8\x72\xd7\x8b\x49\xcb\xb5\xea\x5a\x86\x71\x60\x54\x11\x4d\x69\xbb\xa5\xdf\x55\xda\xb0\x86\x48\x2d\x52\xf7\xc1\x38\xab\x82\x92\x7e\x4d\x4b\x35\xa9\xdb\x4d\xf4\x6e\xfa\xc3\xbb\xfb\x51\x78\x55\xd2\x6a\xbe\x83\x07\xfd\xb0\x8b\x87\x5a\xd6\x8f\x41\xc4\x1d\xab\xcf\x39\xfd\xd0\xa6\xba\x8d\xd3\xa2\x22\xc9\xb6\x6b\x1b\x19\xec\x71\x88\x7a\x25\xe6\x50\x92\x53\xcb\x47\x61\xbd\x03\xa7\xd7\x89\x50\xf2\x73\xdb\x1b\xd0\xbe\x11\x3f\x21\x81\xd9\x83\x60\x9f\xec\xeb\xb5\xad\x87\x72\x9a\xce\x44\x1a\x12\x14\x2f\x76\xc4\xc4\xb6\x90\x70\xb2\xe0\x8d\xa0\xd7\x28\x60\x50\x5e\x0a\x5f\x7c\xbc\x11\xf4\xaa\x6c\x8a\x97\x4d\x31\xa5\x5c\x5c\xb4\x2f\xae\x0a\x26\xdf\x94\x75\x55\x37\xe8\x12\x67\x4e\xac\x6c\xc2\x8e\x3c\x6d\x71\xb3\xe8\xb8\x02\xf6\x34\x56\xa8\xa6\x2f\xa8\x10\x64\x41\x93\x7d\x65\x0f\x96\x0d\xde\x8f\x8c\xb4\x72\xe6\xa4\xb2\xa4\xbc\x5e\x7e\x0e\xd6\xd5\x3b\x0a\x63\x0c\xf4\xc5\x50\xfa\xe3\x88\x3b\x5a\x68\x28\x19\xdb\xda\xee\xd6\x14\x57\xc2\x6e\x5f\xfa\x15\x01\xef\xa6\x5e\x97\x44\xc0\x92\x64\x7a\xec\x50\xb2\x55\xa5\xf8\x32\x2c\xeb\x64\x18\x15\x6e\xf9\xdb\xbf\x10\x2c\x97\x54\x43\xd1\x86\x94\x48\xad\xd2\x77\x39\x5e\x64\x66\x8c\xb6\xba\xb0\xa2\x45\xc7\x38\xa1\xe8\x8d\x8b\x4a\x03\xe9\x66\x74\xf7\xe6\x72\xf7\x66\x68\xef\x46\x8e\x42\x9e\xa7\xb2\x77\xc8\x16\xfe\x2a\x99\xbb\x0b\x03\x85\x17\x92\xbb\x29\x69\x7b\xf1\x6a\xb6\x44\x59\x96\xaa\x37\x24\x17\x15\x90\x2c\x33\x67\x58\x49\x7b\x68\x78\x1e\xee\x4f\x29\x47\xa6\xeb\x39\x5e\x4f\x1e\x19\x21\x7e\x4d\xe4\x32\x39\x34\xd0\xed\x0a\x96\xeb\x23\xcf\xa1\x10\x89\x92\x8f\xce\x3d\x23\x08\x93\x34\xb1\x6d\x27\xe4\x9e\xbd\xd1\x6d\x88\xb5\x27\xf5\x5c\x02\xf6\x34\xd2\x0b\x72\x76\x8f\x56\x2b\x91\x86\x6a\x45\x25\x55\x7c\x01\xc3\x07\xa4\xc4\xdb\x5d\xdf\x63\xa9\x7e\xad\xef\x91\xe9\x36\x94\x93\xb3\xaa\xa0\xfa\x7a\x43\x3b\x49\xc6\xc4\x0c\x6f\xe7\xaf\x40\xac\x84\xa4\xc5\x08\x84\xaa\x1f\xcf\xd9\x1d\xcd\x57\x96\xe9\x90\x8d\x20\x5a\x56\x42\x5e\x20\x47\x47\x46\x80\x76\x56\x10\xbb\xa9\x6c\x09\xf2\x60\xe4\xf6\xf4\xcc\x34\x9b\xc3\x27\x96\xe5\xbe\x21\xe2\x9a\xd3\x39\x7b\x74\x33\x8e\x20\xc2\x53\x19\x69\x8f\xdc\xe1\x31\xd1\xcd\x17\xe3\x71\x04\xff\xc7\x51\x02\xb9\x32\x68\x9c\x14\x6c\x78\x9e\x5e\xa3\x75\xe2\xa0\x1d\x5d\xe3\x85\xc6\x45\x13\x9a\xfb\xbd\xe8\x59\xf6\x78\x1c\x26\xbf\xaa\x2f\x42\x44\x2f\x2b\xbd\x91\x5e\x78\x5b\x97\xe4\x2b\x82\xe8\x60\x10\x02\x7a\xa8\xf8\xdd\x08\x74\xc8\x1c\x8c\xa6\x47\xc7\x0f\x6f\xea\x71\x6d\x6f\xea\xb7\x0c\x49\x18\xb5\x61\x5b\x2c\x1e\x0b\x8e\xf7\x85\x82\xf5\x1a\xef\xfd\x6e\x3b\x3f\x06\x69\x7c\xab\x22\x80\xd6\xd8\x40\x48\xac\xcc\xe8\xe3\xee\x88\x2f\xed\x18\x93\xdd\xdf\xf6\x2a\xf6\x25\xf7\xd1\xd8\x50\xff\x0d\xf6\x8c\xeb\xb9\xf3\xeb\x65\xf8\x4d\xce\x7e\x30\x6c\x6c\x2c\xc8\x60\x56\xd5\xab\x37\xaf\xbf\x8b\x9b\x11\xf8\xfd\x9f\x11\x41\x51\x7c\x60\xf8\xd8\x76\x6d\xad\x83\x5d\xac\xba\x76\x69\x37\x46\x6c\x28\xd3\x53\x00\xb0\x93\xdd\x0f\xb6\x13\xfc\xd6\xb6\x6d\x77\xb3\xf3\xbb\xfd\xe9\xc4\x55\x6f\xa6\x7f\xef\xbe\xc3\xf9\x9f\x6a\xe7\x87\x02\xe9\xa6\x92\x60\x9b\x88\xf6\xb5\x29\x8e\xd8\xbb\x5e\xaf\xc2\x40\x49\x1e\xbb\x8f\x53\x22\x28\x9c\xe1\x19\x7e\xf3\xfa\xbb\x91\x4a\x2e\x19\xd5\x9a\xb8\x66\x3c\xbf\x25\xda\x05\x17\x13\x38\xc3\x01\xfa\x51\x25\x12\x8c\x7b\xe0\xc8\xf9\x39\xbe\x31\x01\x86\x4b\xf9\x68\x53\xa3\x37\x68\xdf\xce\x54\x71\x7c\xc3\x4d\xa8\x06\xd9\xd1\x1e\x5c\x59\x41\xdd\xe4\xb9\x6a\x37\x7a\x8e\x66\x68\x61\x08\xa8\x1a\x54\xdd\xd6\x7c\x35\x6a\x49\x85\x77\x8c\xda\x2b\xac\x09\xeb\x3b\xa0\x68\x2b\x98\x70\x47\x0a\xf0\xb2\x92\xe6\x62\x2f\x82\x44\x58\x4a\x52\x2c\xc9\x3d\x05\xfb\xc1\x8e\xfd\x26\x89\x9a\x67\xaa\xb2\x55\xe6\x6e\x9b\xba\xc6\x83\x92\xdf\xa2\x86\xd7\xa4\x4d\x7c\x9f\xd8\x82\x26\x65\x7b\xe0\xaa\x56\x2e\x50\xed\x52\x7b\xfe\xcd\x3b\xca\x9d\xc2\x35\xa9\xe5\x2e\xed\x74\x3a\xd9\xbb\x63\x32\xac\x0f\xfc\x88\x4f\x4f\x27\x93\x71\xdb\x73\x33\xf3\x08\xeb\xf0\x27\x4b\x28\x3b\x8b\xc7\x44\x7e\xfd\x3c\xb2\xd3\x19\x3a\xef\x9b\x20\x57\x21\xad\x51\xa2\x0c\x95\xc7\x1c\x14\xd8\xdb\x21\xa9\x5e\x61\xb3\x37\x22\xb5\xed\x5f\x99\x70\x94\xb6\xc6\xb6\x43\x52\x36\x4a\x63\xa6\xb1\xa3\x75\x78\xa6\xf5\x7d\xb6\x43\x52\xa6\x19\x1d\x5f\x6d\xe6\x99\x2c\x89\x7b\x83\x06\x35\x51\xe1\x80\xff\xf7\xe5\x97\x7e\xba\x68\x04\x0f\x26\x27\xa2\x02\x9e\x35\xa7\x68\xe4\x10\x75\x1e\x48\xa9\x60\x29\xa3\x40\x31\x2a\x91\x12\x3f\xbd\x80\xe7\x47\xaf\xc2\x3f\x7f\x26\x80\x0d\x85\x76\x61\x5a\x1c\x2d\x12\x07\x43\x66\xb6\x3c\xa4\x27\x64\xd6\x4b\xf6\xfd\x11\x33\x3d\xe9\xe9\x21\xb3\x53\x22\x60\x13\xec\x92\x5e\xbd\xfa\x6a\x30\x08\x86\x51\xec\x36\x36\x8e\x8c\xa1\x48\x00\x48\xc7\x95\x1f\xf5\xda\x32\x7f\xfa\x60\x61\x40\xad\x27\x9e\xe6\x80\x1a\x70\x1a\x1e\xf7\x72\x11\xf0\x49\x27\xf1\xf1\xea\x17\x7b\xa7\x98\xc7\xdb\x99\x88\x64\x04\x91\xc7\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\x33\x87\x9b\x1b\xcd\x11\x5c\xf0\x21\x6e\x0e\x4f\x8e\xeb\x0d\x86\xf5\x86\xa2\x7a\x9b\xf0\xf8\x98\x9e\xa8\x93\x27\x87\x37\xc1\x27\x8a\x5d\xb0\xe9\xf4\x79\x5b\x03\x1d\x74\xe3\x32\xbe\x00\xba\x2a\x4f\x14\x40\xae\xa7\x67\x18\xec\x98\x04\xe7\x46\x54\x1d\x61\x42\xed\x8d\x05\xb9\xe8\x79\xe8\xbc\x5d\x13\x0e\x02\x72\x7c\xc0\x5c\x7d\x84\x02\x4f\xfe\x3d\xe1\xac\x6a\x04\xa0\x3a\x41\x2b\x0c\xf5\x72\x30\x1e\xef\x2a\xdf\x18\xed\x88\x11\xa8\x80\x99\xce\x69\xe3\x21\x49\xac\x28\x38\x62\x59\xfb\x65\x81\xea\x32\x50\x42\xe6\x42\x47\xf8\x25\xa9\x7b\x92\xe3\x5e\x44\x91\x89\x4c\xea\xa6\xfd\x1f\x11\xd8\x22\x86\x99\x4d\x33\xb9\x8d\x70\x72\xfa\x21\x0c\xb7\xd4\xd7\xa0\x6b\xbc\xdd\x6f\xd8\xf7\xd6\x51\x89\x1b\x25\xb3\xf1\xa6\xbd\x5c\x62\xe0\x97\x14\x54\x62\xda\x06\xaf\x83\xcb\x25\xa2\x6d\x3d\x39\x55\x43\x65\x93\x4a\x5b\x77\x25\x05\x55\xe1\xa1\x4e\xac\x13\x67\xb9\xd1\xed\x2e\xd8\x69\x3b\x6e\xb6\xaf\x96\xa2\xc9\x18\x8d\x15\xfe\x7d\xde\x1e\xe2\xb2\x3f\x79\xb0\x2d\x83\x50\xce\x55\x4d\x9e\x95\x5f\xc8\xf6\xf4\xea\x55\x7e\xf6\x21\xd2\xc6\xa7\x95\xa0\x9a\x2a\xaf\xc9\x83\x31\x32\x1b\xfb\xdb\xbd\x73\x2f\xf0\xc7\x16\xe5\x14\xe3\x75\x49\xa7\x0a\x2e\x7a\x23\xd6\x28\xe0\x64\x51\x9b\xf4\xac\xd9\x60\x59\xd4\x5d\x72\x0e\xc5\xae\xc1\xd2\xf1\x1c\x8e\x0b\x1b\xb3\xb9\x3a\x10\xa6\xdb\x6b\x5a\x53\x8c\x31\xda\x61\xdf\x8a\x67\xc4\x93\xa8\x2d\xe4\xf8\xd2\x7e\x8a\xcf\xf4\xfc\xba\xc2\x5e\x10\xd9\xed\x8f\x12\x3b\x42\x2f\xf5\x6d\xe4\x42\xd4\xbf\x74\xf1\x78\x53\x91\xfd\x4e\xb3\x70\xea\x7a\x5c\x92\x82\xe6\x6d\x1d\xba\xe1\x83\x5c\xb8\x67\x63\xf0\x79\x97\x33\x86\xc6\xdb\x7c\x88\x41\x23\x7d\x9a\x65\xf1\x1e\x54\x46\xde\xf7\xab\xe2\x7b\x8c\x79\xb5\x79\x93\x0e\x37\x22\x4e\x34\xc7\x40\xf1\x1c\x2a\x0e\x31\xea\xcb\x1d\xa2\x25\xdb\x74\xb5\xf8\x2b\xba\x9b\x77\x37\x92\xf0\xab\xc7\x9a\x6f\x36\x6c\x3e\x48\x06\xc7\xd0\xd0\x7a\x56\x41\x10\xc8\xc2\x5c\x7d\xdb\xaa\x03\x19\x02\x63\xd6\xd3\x73\x48\x7a\xcf\x89\x39\x26\x73\xc2\x72\x5d\xa8\x63\x4f\xc9\x10\xfc\xa8\x4b\x30\x23\xf2\xac\x84\x88\x65\x51\x27\xe1\x49\xbb\xa1\x21\x24\xfb\xa8\x06\x9b\x0e\x4d\xf4\xb6\x58\x02\xad\xd7\xe3\xb3\x3f\xfc\xcb\x5f\xff\xf0\xfb\x7f\xfa\xe1\x1f\xff\xf5\x87\xbf\xfb\xdd\x1f\xff\xe1\x6f\xfe\xe3\xdf\xfe\xfd\x0f\xbf\xff\xdb\x1f\xfe\xf9\x77\x7f\xfc\xdd\xdf\x9f\x8d\xe1\x7c\xff\x9e\x38\x82\x0d\x2d\x19\x3e\x99\xf8\x44\xfc\x08\x36\x3b\x1b\x02\xbd\xc3\x7e\xfe\xca\x3e\x62\xa2\x43\xf3\x74\xc9\xd8\xd6\x0d\x6e\x3d\x99\x87\xcd\xa6\x2b\x92\x2a\xcc\x5c\x0d\xe5\xb2\x76\xe5\x92\xea\x3e\x2c\x97\x5a\xb0\xb5\xd3\x1b\x7a\x88\xb1\xd9\xa0\xb3\x6f\xee\x08\x56\xea\x6d\xf7\x0c\x9a\xb6\xed\x43\x88\x76\xac\xd1\xc8\x48\x99\xaf\xa9\x5c\xaf\x6d\x5f\x73\x89\x35\x79\xa2\x7a\x7c\x32\x81\xf6\xd5\x5f\x52\x5e\x29\x67\xd8\x13\x2e\x7b\x0f\x62\x2f\x60\x43\xf2\xa1\xb3\x78\xf2\x69\xec\x9d\xc4\x1e\x47\xc7\x42\xfb\x8e\xe4\x0e\x4b\x19\x60\x87\x4e\x65\x3f\x7b\xfe\x94\xc4\x3d\x1a\x2f\x8f\xd7\x11\xbf\x1d\x04\x7d\x96\xde\x7a\xec\x3c\x99\x07\x15\x7d\x6d\x75\xbf\x9a\x10\x26\x60\xd0\xd1\x66\x63\xac\xcc\x24\xc3\xd7\xa5\x67\xaf\xa9\x98\x65\xb4\xa0\x52\x7f\x65\xd1\xb7\x07\xd0\xfa\xec\x9a\x03\xb2\x7a\x4d\xe5\xc7\x5a\x80\xc7\x98\x05\xe7\x07\x92\xc9\xdd\xa4\xf6\xf8\x0c\x5e\x95\xf9\x4a\x7d\xb1\x09\x11\x56\xbd\x85\x49\x6a\x89\x25\x5a\x4d\x30\x75\x11\x23\x1c\x8b\x79\x06\xbc\xcf\xa8\x28\x5b\xc9\xa5\x5f\xe8\x59\x15\x4c\xa2\x4d\x91\x35\xea\xb3\x32\xe8\x9b\xb2\x92\x0a\x01\x67\x63\x33\xa3\x5a\x7e\xaf\x68\x3a\x60\x19\xb4\x12\xab\xb3\x7f\xe6\x60\x6c\xbb\x7d\x2f\x0e\x3b\x7d\xad\xd7\x37\x98\xa7\x1d\x4e\xd4\x0e\x66\x6a\xd5\x11\xc1\x7b\x12\xce\x70\x75\x18\xfa\x92\xe2\xe3\xed\x57\xed\x46\x29\x37\x1d\x43\x2b\x28\x82\xe0\xb3\xfb\x68\x04\x8a\xb2\xad\x15\xfb\x0c\x3b\xb8\xc0\x83\xfb\xa2\x66\x8c\x95\x80\x02\xcb\xc2\x9f\x35\xf3\x39\xe5\x31\xe2\xea\x17\x33\x83\x5f\x2e\x60\x7c\xd0\x60\xf7\x33\x63\x07\x3f\x3c\xe2\xbe\x3a\x7a\x6c\x3e\xee\xe5\xd3\xdb\x9b\x8f\xb9\x2b\x61\x0b\xca\x70\x3c\xe8\x18\xa6\x7b\x36\x37\x2f\x11\x17\x44\xb4\x1c\x81\xe0\xf7\xfa\xd9\x7d\x45\xce\x78\x6d\xbb\x1f\xb0\x3b\xf6\x52\x64\xdf\xf5\xc6\x9b\x66\xea\x18\x00\x71\x40\x75\xdd\xd0\x9b\x66\x2a\x66\x9c\x4d\xf5\x37\x5f\x76\x6e\x30\xfa\xdf\xd2\x40\x4f\xae\xaf\x0f\x8a\x64\x7e\xef\xf7\x54\x40\xe8\x0b\xb1\x50\x8b\x4d\x0e\x72\x96\xe1\x10\x74\x26\xfb\x11\xf7\x6e\x07\x7a\x6c\xb0\x5e\x77\x3e\x44\x41\xee\xa8\xb7\x61\xc7\x7e\xea\x05\x87\x1c\xf1\xa9\x97\x16\xf2\xc1\x8b\x25\x9d\x4f\xda\xa6\x8e\xc0\xa6\x5c\x3f\xf1\xf7\x7a\xe0\x13\x2f\xfb\x21\x98\xb2\x83\xff\x7e\x5f\x7a\x69\xd7\x75\xf0\xa6\xa8\x61\x52\xb7\xc7\x17\xd0\x5d\x33\xde\xaf\x70\xcb\x3e\xe9\xf3\x2e\xb8\x51\x5e\x0f\xa3\xaf\x46\xe6\x86\xfa\x55\xd9\xdb\xc7\xcb\xab\xb5\x3d\xb6\xea\x78\x4e\xfd\xfe\x8b\xb7\xcb\x5e\x29\xff\xe9\xdf\x7f\xf1\xe0\xb8\xa2\xe0\xc3\xc4\xf5\x96\x07\x00\x67\x5d\xea\xb6\xa4\xdd\xf9\x9c\x8b\x99\x69\x3b\x97\x30\x34\x8f\x17\xcd\x46\x92\xad\xd7\x5d\xb2\xf7\x67\x55\x0a\xb1\x30\x02\xf0\x85\x58\x0c\x07\xb1\x77\xeb\x3b\xfb\xae\x37\xee\xa9\x12\x2f\xc4\x22\x7d\xae\xf4\x5e\x7f\x5d\x63\x5f\x1a\xde\xf2\xf2\xc0\x5d\x49\x43\x1e\x13\xe9\x6c\x0b\xd3\x7a\xf8\x65\x3b\x18\xa9\x16\x7c\x44\x61\x1a\x06\xca\xa0\x9a\xfe\x06\x0b\x2e\x4c\xac\x51\xb8\xfd\xb2\x5f\xd4\x78\x41\xca\x95\xce\xaf\x60\xd6\xcd\x16\x60\xe8\xcf\xf1\x35\x18\x17\xc0\x24\x07\xa2\x87\x02\xb0\x14\x0c\x53\x6c\xe6\xf6\x8e\x11\x6a\x83\x78\x0f\x64\xc2\x70\x5e\x63\xb6\x8f\xa0\x9c\x75\x34\x98\xcb\x01\xf4\x07\x1f\x2d\x9d\x3b\x3c\xa8\xe7\xc7\x25\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\x4a\x0d\x0d\xae\xc8\xc4\xa3\x6d\xdb\x09\x35\x34\xde\xe8\x03\xdf\x6f\xc0\xe5\xff\x57\x7f\xbf\xa1\xc5\x6e\xd7\x8a\x18\x54\x40\xd7\xcd\x34\x67\x62\x49\xf9\x29\x25\x32\xc3\x1f\x6f\xf0\x05\x82\x6f\x0b\x78\xb2\xc7\x96\x6d\xec\x68\xf2\xfd\x75\x1b\x6b\x63\xff\x0f\x0f\x9b\x6c\xf1\xd0\x4b\xfa\xe0\x56\x67\x2a\x37\xdc\xd7\x19\x82\xa0\xd7\x58\xf1\xb5\x47\x64\x3a\xf6\x1c\x05\xbf\x22\xe3\x39\x3d\xa4\x33\x76\x4b\x31\xb6\x2b\x31\x3a\x95\xaf\x4e\xa0\xd8\x93\xd1\x5b\x77\xd1\x2b\x72\x8d\x2b\xe5\x21\xb2\x55\x17\x71\xfa\x17\x16\x70\x61\x43\x29\xe4\x21\xb1\xef\x32\xc7\x03\x54\xe9\x95\x7d\xc7\x7d\x61\xc1\xea\x85\x3f\xd9\xb7\x14\x06\x50\x3e\x42\x55\xc1\xb0\xae\xc2\x82\xb9\x23\xd4\x10\xe5\xdc\xce\xb7\xa3\x8e\xc6\x63\xd8\xd5\x48\xe3\x31\x6c\x3c\xe8\x76\x70\xaa\xaa\xe6\xed\xe0\xcf\x3f\xdf\x7d\x97\x62\xde\x52\x7d\x01\xf2\x3d\x33\x77\xc1\xde\x47\x03\xd3\xd8\x5c\xee\x2e\x10\x5b\xb2\x6b\x11\xe9\xc9\x7f\xf6\x7e\x21\xe2\x58\xa5\xdc\x97\x98\xdc\xaf\x95\xfb\x3f\xc5\xe4\xf3\xb0\xd1\xcd\xfd\xaa\xd9\xe4\xc8\xf6\x68\xe6\xee\x25\x1b\xf7\xff\x93\x63\xea\x74\x4c\x84\x44\xb9\x0e\x03\xca\x1a\xb7\xda\x4a\xfa\x17\x62\xb1\xad\xab\xcf\x15\xae\x3f\x8d\xc2\x3e\xd6\xc6\x3a\x94\x1d\xb4\x24\x1f\x54\xd0\x6e\x22\x75\x22\x1c\xb8\xc4\xdb\x86\xff\x1c\x00\x56\x36\x4a\x51\xd7\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\xa2\xc8\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x2f\xe0\x39\x91\xd4\x7f\x8b\xcf\x9b\x4d\x18\xd6\x64\x76\x47\x16\x14\xdf\x5c\xeb\x9f\x2f\x49\xa1\xde\x8c\xc7\x70\x6b\xe7\x80\x59\x55\x4a\xc2\x4a\x01\x05\x95\xcb\x2a\x13\x20\x2b\x28\xc8\x1d\x05\x56\x66\xec\x9e\x65\x0d\xc9\x81\x96\x59\x5d\xb1\x52\x0a\x98\xf3\xaa\x00\x41\xf9\x3d\x9b\x51\x31\x42\x34\x38\xfd\xd0\x50\x21\x81\x94\x19\x70\x2a\xea\xaa\x14\x14\xe4\xaa\xa6\x0a\x12\x76\xc5\x15\x55\x82\xb6\x50\x46\x40\x04\x3c\xd0\x3c\xc7\xbf\xb4\x9c\x55\x19\xe5\x02\x01\x20\xbc\x8c\x9a\xe7\x79\xc5\xcd\x40\x05\x6d\xa4\x1a\x08\x52\x6a\x0e\x55\xc3\x41\x34\x75\x5d\x71\xa4\xb4\xe4\xa4\x14\xf8\x1b\x31\x63\x24\x67\xbf\x25\x92\x55\x25\x42\x9b\x57\xbc\x20\x52\xa4\x61\xc8\x0a\xd5\x23\x0e\x83\x68\xba\x92\x54\x44\x61\x10\xe1\xda\xe9\xa3\xc4\x9f\x0a\x0d\x56\x2e\xc6\xbf\x11\x55\x89\x0d\xf3\x42\xb5\xb3\x4a\xff\x77\xcc\xaa\x46\xb2\x1c\x1f\x4a\x2a\xc7\x4b\x29\x6b\xfb\xbb\xe1\xaa\x59\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x4e\xdb\x33\x91\xe3\x3c\xd5\x62\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x0e\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\x7b\xe2\x07\xce\x97\xeb\x60\xd1\xf1\xe6\xc2\xb3\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\x25\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x48\x9f\xf4\xa9\xac\x98\x6e\xe9\x2c\x33\x7d\x49\x1f\x6e\x28\xbf\xa7\x5c\xbf\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x33\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xf6\xd3\xb2\xa1\x96\xf1\xd8\x55\x89\xa4\xf4\x69\xa9\xc6\xb5\x42\x26\x7d\x6e\x7e\x62\xb3\x11\x1f\xe9\x15\xfe\xc5\x06\x7b\xa4\xd3\x1b\xf5\x03\x9b\xbc\x63\x9a\xde\xda\xdf\xf8\xa2\x3d\x7e\xd8\x9b\x95\x8b\x5f\x91\xbc\x51\xeb\xf6\xe4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x75\x12\xd8\xa6\xc3\xff\xc6\x4a\x83\x7e\x5b\x02\x41\x7d\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x9a\x9a\x37\xe5\x0c\xa9\x20\x40\x2e\x89\x84\x92\xa2\x96\xaa\xa0\xaa\x95\x6d\x00\x15\x8e\xad\x29\x3f\xb7\x6a\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x55\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\xe2\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa6\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x95\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\xa8\xee\x29\x20\xb3\xb1\x19\x75\x56\x85\x42\x91\x22\x9c\x76\x05\x9a\x07\x80\xb5\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe5\x8c\x96\xb2\x4b\x5d\x59\xc1\xac\xca\x73\x3a\x93\x9e\x81\x92\xaf\x60\x56\x95\x1a\x1c\xcd\x3c\x73\x85\x95\xb8\x20\x04\x28\x58\xb9\xc8\xb5\x61\xa2\x69\xc5\x90\xc2\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x93\x19\x1d\xda\x09\x04\xe6\x26\xeb\x37\x92\x1a\x9c\xac\xb5\x4a\x94\xb1\x80\x07\xf0\xd2\xac\x67\x56\x15\x53\x56\x2a\x3a\x15\x06\x45\x6f\x63\x47\xc6\x94\x92\x0d\x2f\x81\x49\xa4\x2b\x22\x38\x23\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x3b\x04\x5d\x87\xc1\x9b\xd2\xad\x8f\x66\xeb\x75\x6a\x47\x68\x13\xd0\x48\x82\xf5\x9a\x93\x72\x41\xe1\x53\x06\x17\x13\x70\x7d\x5e\xe8\x2d\x43\x39\xb6\x5e\x7f\xca\xcc\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\xb5\x70\xd5\xd6\xa5\x6d\x16\x87\xa7\x40\x06\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x4c\x3e\x82\xb1\xd2\x50\x35\xe0\xdf\x11\x32\xcc\xd9\x7a\xfd\x75\x85\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xdb\x55\x6d\x17\x98\x40\xbc\xd5\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc3\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\x13\x28\x59\x8e\x10\x02\xb3\x5f\x25\xcb\x15\x90\x30\xd8\x84\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xbd\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\x76\xb7\x0d\xf7\xcd\xb6\xde\xeb\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\xa7\x79\x7e\xf5\x38\xa3\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x2f\x58\x96\xe5\xf4\x81\x70\xed\x05\xbe\x11\xd6\x2f\x44\x27\xa8\xae\xf3\x15\x8a\x18\x14\x9b\x12\x81\x17\xae\xb7\xf2\xba\xe8\x3d\xe5\x2b\xb7\x6d\x78\x5e\x50\x82\x18\xb7\x4d\xc1\x7b\x55\xa3\xd6\x20\x79\xbe\x1a\xb9\x7e\x02\x66\xa4\x84\x29\x55\xba\x86\x66\x38\x6c\xba\x82\x12\xc9\x2e\x2b\x6c\xa7\x8f\xb3\xbc\xc9\x68\xa6\xbd\xc0\x29\x45\x14\x70\xcd\x35\xcd\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x6e\x24\x91\x8d\x88\x46\x10\x5d\xb3\x72\x11\x25\xee\xdc\x9f\x39\x82\x24\x83\xe3\x1d\x86\x1e\x55\x46\x2d\x36\x69\x9a\x0a\x65\x16\x28\xe6\x61\xa5\x69\xbe\x98\x40\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xf5\x06\xd9\x6b\xfb\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\x58\x6f\x46\x61\xe0\x9b\x91\x9b\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x1c\xde\x8f\xa0\xba\xc3\xd7\x16\xb1\xb7\xf4\xf1\xdd\x13\xf8\xa4\xba\x43\x6c\x83\xa0\x26\x25\x9b\xc5\xad\x85\x37\x8f\xa3\x2b\x0b\xc2\xae\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe3\x9d\x4f\xa9\x4c\x7a\x44\x2a\x49\x0c\x3f\x67\x34\xa7\x92\xc6\x16\x03\xf5\xae\x5d\x00\x2b\x67\x2d\xfa\xb6\x0f\x1c\x4f\x28\x36\x57\x20\x26\x13\xe8\x90\x4c\x41\x08\x82\x5e\x51\x0a\x13\x0f\xf3\xb8\xb7\x0b\xe2\x1e\x6c\xb6\x49\xae\x8f\xdd\x77\x64\x4a\x73\x9a\xb5\xdc\xa0\x43\x28\x0b\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x58\xd2\xd2\xbd\xad\x3c\x76\x35\xc0\x34\xd7\x8d\xf4\x29\x33\x07\xa1\xd1\x9d\x41\xc7\x65\x88\x0e\xee\xb0\x19\x1a\x35\x9c\xcd\x94\x99\xd5\x2e\x03\x1e\x96\x6c\xb6\x54\x67\x48\xd0\xb2\x0f\x05\xa3\xc9\xcd\x68\x6b\xc7\x54\xdc\xe8\xf1\xdd\x55\xe1\x21\x89\x35\x03\x8f\x76\xa5\x70\x8f\x60\x0e\x87\xd6\xf5\xd1\xb2\x69\x07\xa9\x91\x59\xa7\xa2\x38\xa7\x33\xca\xee\x51\x34\x51\xbd\xc4\x6a\xde\x59\x77\x0a\x37\x94\x3a\x30\x1e\x14\xf5\xc2\x1a\xa2\x06\xe1\xab\x47\x44\x14\x39\x32\xa3\x92\xb0\x5c\xa0\x9d\x6c\x8f\x13\x02\xb1\xc6\x2e\xc9\x99\x5c\xa5\xfb\x44\x48\x67\xed\x71\xf1\x23\x28\xfa\xbf\x72\xe6\x7f\x8e\x9c\xe9\x0c\x1b\xc1\x49\x62\xe7\xf8\x00\xc5\xb1\xae\xe7\xd7\xaf\xaf\x2f\x71\x9d\x94\x9f\xec\x7b\xa2\x19\xe7\x0d\xc7\x70\xad\x68\x8d\x01\xb7\x3f\x40\xee\x09\xcb\xc9\x34\xa7\xda\x6d\x58\xbc\xbe\xbe\x84\x01\x67\xc0\x1c\xa7\x2e\x64\xe7\x21\x8a\x56\x36\x8c\xa0\x52\xb6\x83\xc0\xf3\xd0\x89\xc5\x28\xf6\xa6\x5c\x9b\x16\xc9\xd0\x44\xb8\x5d\xc2\xeb\x28\x90\x27\xde\xbe\x1b\x86\x84\xdc\xdb\xf7\xf6\x19\x9d\x57\x9c\xc6\x88\xed\x0b\x13\x53\xba\xad\x8c\xf5\x99\x8c\x70\xd7\xb6\xe6\x99\xa0\xe1\x44\xcb\x2c\xee\x34\xbb\xf5\xa4\x69\x9a\xa8\x40\xc7\x7a\x0d\xb7\xd5\x77\xd5\x03\xe5\x2d\x23\x22\xa9\x70\x73\xad\x69\xf8\x39\x62\x84\x2f\x29\x5f\xa3\x9b\x74\x90\x7b\xd7\x6b\x0b\xd3\xb1\x9c\xf1\xcc\x2f\xa0\xbb\x3a\x17\xa9\x89\x91\xaf\xdd\x0e\xf4\x31\x2b\x5a\x24\xc1\x73\x15\x30\x47\x32\x78\x3d\x8c\x91\xac\x3a\x5c\x95\xbd\x1d\x8c\xcb\x83\x3d\x3a\x04\x49\xd3\x14\x87\x21\x09\xb7\xce\x00\xca\xe0\x76\xdd\xdb\x1e\xb4\xb3\xd1\xfb\xb7\xdd\xd9\xfb\x5a\xd9\x79\x70\xfe\x04\x5e\xeb\x10\xad\x01\xb6\x88\x6d\xda\x3d\xf3\xde\x38\x5d\x26\x6c\x81\x82\xd7\x43\x55\x56\xed\xaa\x8f\x5f\xf0\x41\x8c\xd5\xd1\x8b\x05\x9c\xb5\x53\x25\x2d\xf8\x03\xde\x30\x3a\x4b\x3f\xad\x3b\xfc\x1e\x3d\xa6\xba\xe3\x50\x0d\x11\x54\x2d\x46\xf1\x96\xef\x69\x9d\xe8\x1e\xd7\x1f\xe9\x19\x1b\x42\xeb\x03\x70\x98\xca\xe3\x31\xec\x3b\x2b\xc0\x50\x46\x3a\xd6\x50\x81\xe3\x54\x0f\x30\x3d\xbe\xc2\x6d\x52\xc1\x23\x4c\xf4\x50\x2e\x85\x8e\x2d\x19\xb9\xba\x43\x23\xe7\x02\x63\x84\x07\x03\x58\xfc\x3c\xab\x0a\xc2\xca\x7d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x2b\x1b\xf3\xf2\x03\x64\x5a\x4c\xef\x5b\x47\xfc\x7e\x97\x47\x70\x2d\xaf\xe9\x87\x96\x27\x95\x2f\xee\x3d\x75\xa3\x21\xca\xfb\x36\x63\x8e\xf1\xbe\xdd\x4e\x7e\xd8\xb3\x4d\x57\xe5\xd1\xdb\xb4\x57\x62\xf5\xee\x93\x1e\x61\xbb\x0c\x6d\xd4\xe1\x2d\x30\x53\xa8\x0d\xdb\xb3\xad\x75\xbe\x3a\x6a\x9f\xf6\x2e\xa4\x6f\xa3\xfa\xc2\x23\xfb\x76\x4a\xd4\xb8\x55\x76\xd4\x11\xe7\xc8\xdb\x2c\x51\xf7\xed\xd6\x37\x34\xc7\x58\x7b\xa8\x19\xad\x57\xbb\xf6\xcb\xa1\x22\x03\x9b\xdb\x49\x5f\x3c\x4f\xb6\x3b\x20\xbe\x28\x4d\xef\x46\x70\xdf\x9a\x81\x85\xb3\x5f\xef\x3b\x71\x19\x95\xa2\xa6\x70\x47\x57\x6a\xbb\x33\x34\x74\xa7\x95\x5c\x22\x8d\xed\x2c\x26\xb9\x0b\xf1\x5d\x62\x7c\x12\xec\x9a\xe7\x90\xe3\x7e\x19\x28\xc4\x78\x62\x2a\x06\x7b\x49\xca\xaa\x64\x33\x92\x7f\x43\x49\x46\xf9\x2f\xe8\xca\x3a\x2c\x38\x91\xa8\x4c\x64\x58\x1a\xff\xcf\x82\x98\xcd\xa8\x0d\x88\x50\x26\x97\x94\x9b\x99\xf1\x3d\x92\x62\xe2\xd6\xfa\x3d\x93\x4b\x95\x9c\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\x71\x00\xbb\xf8\x2e\x69\x21\x18\x57\xc0\x6c\xdf\x4c\x3e\x2a\x8d\x6c\x0d\xc3\xfd\xff\xd4\x3e\xea\xf0\xf3\xc9\xc6\xe6\x4b\xfa\xe0\x8d\xd6\xd3\xab\x54\x84\x89\x27\xc1\x94\xcc\xee\x70\x7b\x56\xf6\xcc\xe8\xb8\x3d\xae\xb5\xa4\x2a\x0d\x92\xc2\xb7\x12\xf7\xd1\x64\x00\x0c\xbb\xb2\x29\x43\x47\xce\x6e\x81\x09\x70\xcb\x0a\x32\x46\x72\x1d\x05\xcf\x89\xa4\x1c\x66\x98\xa2\x42\xcf\x9c\xfa\x30\x35\x83\x76\xb0\x8b\xf1\xb5\xd6\xa2\xa9\xc6\xf7\xb2\x2a\xcb\x3d\x16\xab\xee\x64\x2d\xd6\x78\xc0\x64\xf5\x8f\x1c\x1a\x0a\xdb\x01\xd8\x60\xd7\x83\xf1\x83\xa9\xad\x68\x0b\xee\x09\xef\x93\x28\xd6\x9e\xdb\x75\x3f\xc3\x60\xdd\x6f\x3c\xba\x21\x93\x5d\xf3\xd1\x10\x43\x71\x1d\xae\xdf\x7a\x99\x1e\x4e\x5f\x35\x79\x6e\x1d\xa1\xd6\x09\xbd\x7e\xe6\xb7\x5d\x95\x07\x0c\xcb\xe7\xf4\x90\x61\x79\x40\x1a\xe9\x98\x5a\xd0\x1a\xe0\xf8\x98\xb8\xc5\xc7\xca\x79\x54\xd4\x35\x56\xa8\x13\x54\x56\x8a\xd9\xae\xe2\xa0\x15\x0e\xe7\xc6\x0e\x77\x98\xda\xb1\x17\x98\xd2\xd8\x43\xe2\x51\x3b\x6f\xb0\xb1\x22\x13\x45\x25\xae\x1c\xcc\xb9\xf8\xf1\x46\xc8\x1e\xed\xf6\x9c\x1e\xa3\xdd\xf6\xeb\xab\x63\x8d\x10\xa3\x49\x06\xb4\x9b\x3e\xda\xe6\xec\x3d\xa7\x27\x6a\x37\x5c\xcc\x6b\x85\xcc\x91\xea\x0d\xbb\x3a\x53\x04\x95\xee\x49\x0a\xae\xce\x57\x7d\x1a\xce\xdf\xb6\x1f\x6f\x94\x0c\xdb\x8e\x57\xe5\x11\xb6\xe3\xe1\x0d\xf1\x4c\xc8\x3d\x3b\xbc\xd7\x76\xec\xec\xda\xbe\x75\xf4\x9b\x24\x66\x89\xc7\x6d\xd9\xa9\x99\x9b\xfd\xb6\xa3\xc1\x42\xe9\x54\x71\x5b\xf9\xe6\x88\x3e\x29\x7d\xf2\xdc\xcc\x83\xe7\x44\x33\xea\x1e\x28\xf1\x1d\x5d\x09\x78\xfb\xce\x46\xf6\x0e\xc0\x3b\x2a\xf3\x55\x64\x70\x76\xc8\x14\x52\xaa\xa0\x26\x8c\xb7\x93\x87\x81\x8d\xf3\xdd\xb5\x06\x92\x42\x6f\x6d\xc2\x5f\xf7\x36\xc6\x37\x93\x8f\xa9\xa2\x49\x7c\x97\xa4\x26\x9e\x99\x3c\x01\x1b\xeb\x0b\x34\x60\x17\xf0\x50\x8f\xda\x1c\x71\xf1\x2d\x14\xa2\x08\x53\xbd\xeb\xd8\x5e\x67\x45\x86\x71\x33\xbb\x80\x9f\x57\xac\x8c\xcf\x8a\x6c\xd4\x36\x5d\xe3\x98\x58\x8d\xc4\xa8\x49\x62\xc1\x19\xca\xa0\x6d\x62\x82\x66\x7a\x27\x8f\x0d\x89\x7d\x73\x7b\x7b\x6d\xbc\x05\xdb\x76\xf8\xdf\x38\x0c\x55\x3e\x5e\x53\xb9\x54\xec\x05\x13\x88\x48\x5d\xe7\x6c\xa6\x2a\x50\x54\x51\xdf\x13\x98\x2d\x09\x17\x54\x4e\x1a\x39\x3f\xff\x59\xe4\x22\x69\x38\xab\x71\x67\x4d\xda\x1d\x19\x6b\x69\x5a\xd4\x99\x3d\x1c\x61\x43\x60\x55\x09\x35\xa7\x19\x9d\xb3\x92\x66\xaa\x78\x42\x98\x33\xb7\x35\xcd\xc1\xb8\x5a\xb7\x76\xa7\x1b\x57\xf3\xab\x3a\xac\x45\xc2\xe6\x90\x2a\xf8\xca\x78\xf7\xe4\xd6\x56\x6c\x07\x79\xe7\xed\xbb\x61\xe8\x6a\xff\xfb\x5e\x9b\x60\x9b\x9e\x03\xad\x53\xd1\x89\xb5\xf5\x0f\xba\x42\x49\xae\xc5\x0d\x8f\xa9\xf7\x30\x3c\xe4\xe9\x5c\x52\x1e\x6f\xbf\x91\x97\xed\xd6\xc6\xde\x36\x27\x0a\xd0\xee\x2a\x8f\x8a\xf4\x99\x90\x8f\x8a\xea\x15\x48\x98\xa2\x79\x44\xeb\xe9\x75\xd5\x20\x0e\x49\xe8\x59\x14\x26\x51\x71\x31\x19\x24\xb3\xeb\x3a\xc5\x92\x90\x72\x81\x00\xcd\xb0\xf4\x99\x6e\x32\x61\xec\xc2\x8e\x8b\xd1\xe8\x32\xdd\xb1\x78\x77\x0a\x7f\x05\xb7\xd5\x1b\x2c\x4e\xdc\x6c\xa2\x24\xbd\x26\x72\xd9\xe9\x83\x0d\xb7\xb4\xa8\xd1\x2a\x56\x3d\x2c\x3b\x0d\x94\x7a\xa9\x00\x62\x37\x82\x68\x30\xda\x31\x70\x9c\x35\x87\xcb\xf3\xa6\x54\x89\x14\xa7\x1e\x74\x47\xbd\xa3\xd8\xf1\x6b\x9d\x0f\xb3\x6a\x58\xbf\xee\x0b\x26\x06\x2a\x45\xd0\x06\xd9\xfc\x9f\x46\x68\x14\xc6\xa8\xf2\x99\x46\x27\xde\x94\xdf\xa0\xcd\x02\x9b\x42\xb3\x33\x7e\x8f\xef\xf9\x08\x7d\x8f\x8c\xce\x49\x93\x4b\xd4\x76\x9a\x41\xf0\x44\xaa\x50\x63\x35\x87\x6d\x59\x30\x02\x02\xd3\x2a\x53\xee\x1f\xca\x06\x9d\xf0\x42\x27\x30\x52\xf3\x44\xce\x6f\xbc\x47\x29\x8b\xa0\x54\x7b\xaa\xb0\x8b\x13\xed\x9d\x10\x10\x2a\xad\x0d\x48\x0f\x04\xf5\xff\xbf\xfc\x32\x85\x6f\x4d\x0a\x0c\x7b\xfa\x31\x52\x7d\x6e\x28\x57\x55\xd3\xd8\xa3\xe6\xd5\x3d\x43\xc7\x76\xa9\xde\x60\x45\x40\x9e\x63\x9e\x5d\x61\xab\x33\x8f\xd8\xaf\xb5\xc9\x7c\xd0\x08\xc5\x83\x8e\xab\x48\x5f\x10\x2e\x96\x44\x55\x7b\x59\xfc\x0b\xdd\x84\xa9\x7a\xd1\xcc\x66\x94\x66\x42\x7b\x52\x3f\xbf\x79\xf5\xd2\x14\x5f\x67\xb6\x52\xda\xba\x62\x6a\xad\x0e\x1d\xcc\x82\x0e\x2f\x4b\x67\xf6\xb1\xf6\x9d\x8f\xac\x83\xe7\x56\xd6\xbe\xec\x40\x03\x56\x0a\x49\x49\x66\x69\xa6\x85\xa4\x2f\x21\xfa\x0c\x11\x57\x24\x32\x82\x07\x5d\xdb\xd6\x65\x03\x65\x33\xe2\xae\x8e\xe0\x3d\x1e\x3f\x9f\x24\x5a\xfc\x60\xa2\xb1\xa6\x7c\xad\x76\xf1\x02\xd7\x62\x37\x14\x2d\x11\x36\xb7\xd4\x42\x02\x6a\x45\x8b\x5d\xe2\x2e\x6d\x5b\x3d\xcb\xe6\x80\xaf\x9e\xa9\x29\xcd\xd0\x2b\x1d\x33\x75\x80\xec\x38\x24\x77\x9c\x3c\xb1\x33\x60\xb7\x89\xa7\x73\x11\x6d\x98\x38\x70\xd6\xdd\x0f\x1e\x52\xcd\x36\x71\x92\xde\x50\x19\x47\x46\x10\x9e\xdf\xae\x6a\x1a\x8d\x7c\x95\xa7\x17\xb0\xb4\x4c\xe6\xe3\xdf\x15\x0f\x96\x0f\xdb\x75\xa0\xd5\xe1\x99\x1c\x16\x86\xe9\x29\x62\x45\xd8\x60\x1b\x97\xbb\x51\x4f\xcf\xf4\x6b\x2a\xe3\x3b\x9b\x10\xdc\x84\x81\x3a\x1a\x17\xba\x1a\x35\xd5\xec\xf0\x2d\x9a\x8e\x25\xc9\x3d\x25\xa1\x70\x17\xb3\x3d\x58\x7b\x6c\xd6\x22\xae\x80\x4f\x40\xcc\x0c\x64\x7c\x6d\x9c\xc6\x87\x54\x31\x85\xc1\x18\x3b\x26\xae\x31\x46\x6a\x27\x28\x6f\x5a\xbe\xd3\xbe\x0c\x8f\xa7\xcd\x1c\xde\xbe\xc3\x02\xdb\xc4\xf0\xfa\x3a\x54\xb6\xda\x03\xf8\x2c\xe4\x62\xdc\x96\xcf\xde\x94\x66\x67\x11\xc2\x08\x3e\x7f\x48\x9e\x6c\xc7\xc0\xb5\x95\x22\xd8\x6f\x29\x4c\xe0\x67\xff\xf7\xcf\xff\x4c\xb3\x50\x4e\x4b\x1c\x93\xc0\x5f\xe8\x77\xd8\x35\x40\x34\x26\x30\x6d\xe6\x6f\x2f\xb0\xf1\x9d\x51\x73\x46\x56\x62\xb5\x88\xa2\xdb\x3c\x8e\xac\x74\x00\x5c\x94\x4a\xe0\x5e\x60\xf8\x0a\xf3\xb7\x35\x9a\x3b\x50\x56\xe5\x39\xf2\x95\x33\xe4\xb1\x63\x34\x42\xe0\x26\x39\x6b\xa0\x9a\x82\xdf\x97\xf4\x21\x7e\xd0\xe7\x42\xd1\x48\xc9\x50\x7f\xed\xb6\x5c\x60\x1d\x06\xaa\x17\x3e\xa3\x7c\xf9\x35\xce\x72\x61\x04\xe8\xaf\x8d\x38\xc7\x7d\x37\xbd\x88\x64\x62\xce\xf0\x5e\xc8\x92\x3a\x69\xa8\x04\xa9\xb7\xb9\xad\x9b\x21\x80\xa9\x2b\x1c\xf6\x1e\xcb\x31\x75\xda\xa9\x4e\x2e\x79\x93\x3a\x54\x15\x5a\x78\xf7\xc0\x4e\x85\x33\x85\x81\x95\xbd\x00\x7e\x16\xdf\x99\xe4\x96\x47\xe2\x65\x0b\x34\xf1\x64\x5e\x9c\x40\xb7\x1e\x6e\x99\xb6\x33\x0c\x8c\x6e\x8f\x15\x36\x9a\xb3\xd3\x01\x61\x90\x0a\x3b\xf1\xf3\xed\x08\xc3\x41\x9b\xc4\x8b\x49\x1d\x30\x4a\x5c\x50\x62\xaf\xf6\xdf\x76\x72\x15\xf6\xfd\x09\x12\x95\x47\xd5\x37\x79\x70\x0c\x0a\xbf\x73\xa3\x6b\x7c\xff\xd5\xce\x73\x4d\x38\x2d\xa5\xf1\x09\x1d\x9f\xaa\x2a\x33\x54\x47\x88\x95\x6d\x55\x90\x91\x83\x0f\xc5\xdf\x03\x2f\x44\xb1\x77\x59\xbd\x3e\x2f\x9c\x19\x05\xa3\xba\x0c\xfb\xbb\x41\x46\xe7\x94\x03\x4f\x51\x6a\xa7\x97\x18\xa8\x44\x01\xa4\x24\x06\xfa\xc2\xad\xfb\xbb\xb5\x56\x03\x19\x25\x37\x1a\x41\x78\xe0\x5d\xc2\xcd\x14\xe7\xbf\xa6\x24\x7b\x9a\xe7\xb1\x06\x7e\x5c\x01\xa3\xad\xd8\x9f\xa3\xc2\x1b\x41\x64\x24\x01\x47\x65\x6b\x0d\x1e\x5c\x99\x25\x67\x64\x24\xf5\x96\x20\xfa\x52\xad\x2d\x68\xac\x50\x43\xd7\xe8\x62\x02\xee\x86\x4a\x2b\xee\x8c\x9d\xa7\xba\x07\x4f\xf3\xbc\x7a\xb8\x26\x5c\x32\x92\x63\x54\x4d\xf2\xc6\x18\x85\xcf\x99\x98\x11\x9e\xbd\x29\xd5\x6d\xa2\x8b\xf6\x8d\xad\xec\xc0\xa5\x4f\xc0\x9f\x70\x47\xa4\x62\x6e\x71\x47\xa8\xf6\x8b\xd5\x61\xc1\xda\x2b\x5a\x0d\x1a\x1d\x62\xba\x03\xbb\xee\x21\xab\xa1\xde\x47\xc9\x5c\x4d\x90\xc0\x53\x88\xcf\x48\x66\xd8\xc1\xbc\x43\x04\x5a\xb4\x9c\xb7\x8e\x1e\xe5\x35\xe1\xa4\x10\xd6\x5d\xf9\x15\xe1\x22\xe6\xb8\x87\x78\x63\xa3\x7d\x8f\xbe\xfd\x87\x86\xf2\x55\xdb\x9d\xa7\x6f\x5e\x7f\x97\xfe\x12\x1b\x63\x3b\xc0\xeb\x12\xfa\x3e\x8c\x2e\x5a\xbd\x98\xb4\x5c\xab\x2e\x57\x18\x07\x46\x95\xc2\x94\xb6\x5b\xfa\x5d\xa5\x0d\x6b\x88\xd4\x22\x75\x1f\x8c\xb3\x2a\x28\xe9\xd7\xb4\x54\x93\xba\xdd\x44\xef\xa6\x13\xd4\x75\xbf\xf6\xa3\xf0\xaa\xa4\xd5\x7c\x07\x0f\xfa\x61\x17\x0f\xb5\xac\x1f\x83\x88\x3b\x56\x9f\x73\xfa\xa1\x4d\x58\x1b\xa7\x45\x45\x92\x6d\xd7\x36\x32\xd8\xe3\x10\xf5\x4a\xcc\xa1\x54\xa5\x96\x8f\xc2\x7a\x07\x4e\xaf\x13\xa1\xe4\xe7\xb6\x37\xa0\x7d\x23\x7e\x42\x1a\xb2\x07\xc1\x3e\xd9\xd7\x6b\x5b\x0f\x65\x26\x9d\x89\x34\x24\x28\x5e\xec\x88\x89\x6d\x21\xe1\x64\xc1\x1b\x41\xaf\x51\xc0\xa0\xbc\x14\xbe\xf8\x78\x23\xe8\x55\xd9\x14\x2f\x9b\x62\x4a\xb9\xb8\x68\x5f\x5c\x15\x4c\xbe\x29\xeb\xaa\x6e\xd0\x25\xce\x9c\x58\xd9\x84\x1d\x79\xda\xe2\x66\xd1\x71\x65\xe8\x69\xac\x50\x4d\x5f\x50\x21\xc8\x82\x26\xfb\x8a\x17\x2c\x1b\xbc\x1f\x19\x69\xe5\xcc\x49\x65\x49\x79\xbd\xfc\x4c\xaa\xab\x5a\x14\xc6\x18\xe8\x8b\xa1\xf4\xc7\x11\x77\xb4\xd0\x50\x4a\xb5\xb5\xdd\xad\x29\xae\x84\xdd\xbe\x24\x2a\x02\xde\x4d\xa0\x2e\x89\x80\x25\xc9\xf4\xd8\xa1\x94\xa9\x4a\xd4\x65\x58\x9c\xc9\x30\x2a\xdc\xf2\xb7\x7f\xad\x57\x2e\xa9\x86\xa2\x0d\x29\x91\x5a\xa5\xef\x32\xb5\xc8\xcc\x18\x6d\x75\x61\x45\x8b\x8e\x71\x42\xd1\x1b\x17\x95\x06\xd2\xcd\xcb\xee\xcd\xc8\xee\xcd\xb3\xde\x8d\x1c\x85\x3c\x4f\x65\xef\x90\x2d\xfc\x55\x4a\x76\x17\x06\xca\x67\x24\x77\x53\xd2\xf6\xfa\xd4\x6c\x89\xb2\x2c\x55\x6f\x48\x2e\x2a\x20\x59\x66\xce\xb0\x92\xf6\xd0\xf0\x3c\xdc\x9f\x18\x8e\x4c\xd7\x73\xbc\x64\x3c\x32\x42\xfc\x9a\xc8\x65\x72\x68\xa0\xdb\x15\x2c\xba\x47\x9e\x43\x21\x12\x25\x1f\x9d\x41\x46\x10\x26\x69\x62\xdb\x4e\xc8\x20\x7b\xa3\xdb\x10\x6b\x4f\x02\xb9\x04\xec\x69\xa4\x17\xe4\xec\x1e\xad\x56\x22\x0d\xd5\x8a\x4a\xaa\xf8\x02\x86\x0f\x48\x89\x77\xb4\xbe\xc7\x82\xfb\x5a\xdf\x06\xd3\x6d\x28\x27\x67\x55\x41\xf5\x25\x85\x76\x92\x8c\x89\x19\xde\xb1\x5f\x81\x58\x09\x49\x8b\x11\x08\x55\x05\x9e\xb3\x3b\x9a\xaf\x2c\xd3\x21\x1b\x41\xb4\xac\x84\xbc\x40\x8e\x8e\x8c\x00\xed\xac\x20\x76\x53\xd9\x42\xe2\xc1\xc8\xed\xe9\xf9\x65\x36\x87\x4f\x2c\xcb\x7d\x43\xc4\x35\xa7\x73\xf6\xe8\x66\x1c\x41\x84\xa7\x32\xd2\x1e\xb9\xc3\x63\xa2\x9b\x2f\xc6\xe3\x08\xfe\x8f\xa3\x04\x72\x65\xd0\x38\x29\xd8\xf0\x3c\xbd\x46\xeb\xc4\x41\x3b\xba\x52\x0b\x8d\x8b\x26\x34\xb7\x74\xd1\xb3\xec\xf1\x38\x4c\x7e\x55\x5f\x67\x88\x5e\x56\x7a\x23\xbd\xf0\xb6\x2e\xac\x57\x04\xd1\xc1\x20\x04\xf4\x50\xf1\xbb\x11\xe8\x90\x39\x18\x4d\x8f\x8e\x1f\xde\xb7\xe3\xda\xde\xd4\x6f\x19\x92\x30\x6a\xc3\xb6\xca\x5c\x38\xde\x17\x0a\xd6\x6b\xbc\xbd\xbb\xed\xfc\x18\xa4\xf1\xad\x8a\x00\x5a\x63\x03\x05\x2a\x2b\x33\xfa\xb8\x3b\xe2\x4b\x3b\xc6\x24\xf3\xb7\xbd\x8a\x7d\xb9\x7c\x34\x36\xd4\x7f\x83\x3d\xe3\x7a\x6e\xee\x7a\x09\x7d\x93\xab\x1f\x0c\x1b\x1b\x0b\x32\x98\x55\xf5\xea\xcd\xeb\xef\xe2\x66\x04\x7e\xff\x67\x44\x50\x14\x1f\x18\x3e\xb6\x5d\x5b\xeb\x60\x17\xab\xae\x5d\xda\x8d\x11\x1b\xca\xf4\xa4\xfd\x77\x72\xfa\xc1\x76\x5a\xdf\xda\xb6\xed\x6e\x76\x7e\xb7\x3f\x9d\xb8\xea\xcd\xf4\xef\xdd\x77\x38\xff\x53\xed\xfc\x50\x20\xdd\x54\x12\x6c\x13\xd1\xbe\x36\x25\x11\x7b\xd7\xeb\x55\x18\x28\xc9\x63\xf7\x71\x4a\x04\x85\x33\x3c\xc3\x6f\x5e\x7f\x37\x52\xc9\x25\xa3\x5a\x13\xd7\x8c\xe7\xb7\x44\xbb\xe0\x62\x02\x67\x38\x40\x3f\xaa\x44\x82\x71\x0f\x1c\x39\x3f\xc7\x37\x26\xc0\x70\x29\x1f\x6d\x6a\xf4\x06\xed\xdb\x99\x2a\x71\x6f\xb8\x09\xd5\x20\x3b\xda\x83\x2b\x2b\xa8\x9b\x3c\x57\xed\x46\xcf\xd1\x0c\x2d\x0c\x01\x55\x83\xaa\xdb\x9a\xaf\x46\x2d\xa9\xf0\x8e\x51\x7b\x85\x35\x61\x7d\x07\x14\x6d\x05\x13\xee\x48\x01\x5e\x56\xd2\x5c\xcf\x45\x90\x08\x4b\x49\x8a\x25\xb9\xa7\x60\x3f\xbb\xb1\xdf\x24\x51\xf3\x4c\x55\xb6\xca\xdc\x50\x53\x97\x71\x50\xf2\x5b\xd4\xf0\xb2\xb3\x89\xef\x13\x5b\x96\xa4\x6c\x0f\x5c\xd5\xca\x05\xaa\x5d\x6a\xcf\xbf\x3f\x47\xb9\x53\xb8\x26\xb5\xdc\xa5\x9d\x4e\x27\x7b\x37\x45\x86\xf5\x81\x1f\xf1\xe9\xe9\x64\x32\x6e\x7b\xee\x57\x1e\x61\x1d\xfe\x64\x09\x65\x67\xf1\x98\xc8\xaf\x9f\x47\x76\x3a\x43\xe7\x7d\x13\xe4\x2a\xa4\x35\x4a\x94\xa1\xf2\x98\x83\x02\x7b\x3b\x24\xd5\x2b\x6c\xf6\x46\xa4\xb6\xfd\x2b\x13\x8e\xd2\xd6\xd8\x76\x48\xca\x46\x69\xcc\x34\x76\xb4\x0e\xcf\xb4\xbe\xcf\x76\x48\xca\x34\xa3\xe3\xab\xcd\x3c\x93\x25\x71\x6f\xd0\xa0\x26\x2a\x1c\xf0\xff\xbe\xfc\xd2\x4f\x17\x8d\xe0\xc1\xe4\x44\x54\xc0\xb3\xe6\x14\x8d\x1c\xa2\xce\x03\x29\x15\x2c\x65\x14\x28\x46\x25\x52\xe2\x07\x14\xf0\xfc\xe8\x55\xf8\xe7\xcf\x04\xb0\xa1\xd0\x2e\x4c\x8b\xa3\x45\xe2\x60\xc8\xcc\x96\x87\xf4\x84\xcc\x7a\xc9\xbe\x3f\x62\xa6\x27\x3d\x3d\x64\x76\x4a\x04\x6c\x82\x5d\xd2\xab\x57\x5f\x0d\x06\xc1\x30\x8a\xdd\xc6\xc6\x91\x31\x14\x09\x00\xe9\xb8\xf2\xa3\x5e\x5b\xe6\x4f\x1f\x2c\x0c\xa8\xf5\xc4\xd3\x1c\x50\x03\x4e\xc3\xe3\x5e\x2e\x02\x3e\xe9\x24\x3e\x5e\xfd\x62\xef\x14\xf3\x78\x3b\x13\x91\x8c\x20\xf2\x78\xe6\x02\xbe\xf8\x2c\xfb\x22\x1a\x75\xe6\x70\x73\xa3\x39\x82\x0b\x3e\xc4\xcd\xe1\xc9\x71\xbd\xc1\xb0\xde\x50\x54\x6f\x13\x1e\x1f\xd3\x13\x75\xf2\xe4\xf0\x26\xf8\x44\xb1\x0b\x36\x9d\x3e\x6f\x2b\x99\x83\x6e\x5c\xc6\x17\x40\x57\xe5\x89\x02\xc8\xf5\xf4\x0c\x83\x1d\x93\xe0\xdc\x88\xaa\x23\x4c\xa8\xbd\xb1\x20\x17\x3d\x0f\x9d\xb7\x6b\xc2\x41\x40\x8e\x0f\x98\xab\x4f\x49\xe0\xc9\xbf\x27\x9c\x55\x8d\x00\x54\x27\x68\x85\xa1\x5e\x0e\xc6\xe3\x5d\xe5\x1b\xa3\x1d\x31\x02\x15\x30\xd3\x39\x6d\x3c\x24\x89\x15\x05\x47\x2c\x6b\xbf\x2c\x50\x5d\x06\x4a\xc8\x5c\xe8\x08\xbf\x07\x75\x4f\x72\xdc\x8b\x28\x32\x91\x49\xdd\xb4\xff\x53\x00\x5b\xc4\x30\xb3\x69\x26\xb7\x11\x4e\x4e\x3f\x84\xe1\x96\xfa\x1a\x74\x8d\xb7\xfb\x0d\xfb\xde\x3a\x2a\x71\xa3\x64\x36\xde\x97\x97\x4b\x0c\xfc\x92\x82\x4a\x4c\xdb\xe0\xa5\x6e\xb9\x44\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xeb\xc6\xa3\xa0\x2a\x3c\xd4\x89\x75\xe2\x2c\x37\xba\xdd\x05\x3b\x6d\xc7\xcd\xf6\x05\x51\x34\x19\xa3\xb1\xc2\xbf\xcf\xdb\x43\x5c\xf6\x27\x0f\xb6\x65\x10\xca\xb9\xaa\xc9\xb3\xf2\x0b\xd9\x9e\x5e\xbd\xca\xcf\x3e\x44\xda\xf8\xb4\x12\x54\x53\xe5\x35\x79\x30\x46\x66\x63\x7f\xbb\x77\xee\x05\xfe\xd8\xa2\x9c\x62\xbc\x2e\xe9\x54\xc1\x45\x6f\xc4\x1a\x05\x9c\x2c\x6a\x93\x9e\x35\x1b\x2c\x8b\xba\x4b\xce\xa1\xd8\x35\x58\x3a\x9e\xc3\x71\x61\x63\x36\x57\x07\xc2\x74\x7b\x4d\x6b\x8a\x31\x46\x3b\xec\x5b\xf1\x8c\x78\x12\xb5\x85\x1c\x5f\xda\x0f\xea\x99\x9e\x5f\x57\xd8\x0b\x22\xbb\xfd\x51\x62\x47\xe8\xa5\xbe\x8d\x5c\x88\xfa\x97\x2e\x1e\x6f\xea\xb0\xdf\x69\x16\x4e\x5d\x8f\x4b\x52\x50\x53\xb8\xdd\xce\x4a\x73\xe1\x9e\x8d\xc1\xe7\x5d\xb1\x18\x1a\x6f\xf3\x21\x06\x8d\xf4\x69\x96\xc5\x7b\x50\x19\x79\x5f\xa1\x8a\xef\x31\xe6\xd5\xe6\x4d\x3a\xdc\x88\x38\x21\x46\x48\x8c\x8a\x43\x8c\xfa\x72\x87\x68\xc9\x36\x5d\x2d\xfe\x8a\xee\xe6\xdd\x8d\x24\xfc\xea\xb1\xe6\x9b\x0d\x9b\x0f\x92\xc1\x31\x34\xb4\x9e\x55\x10\x04\xb2\x30\x17\xd8\xb6\xea\x40\x86\xc0\x98\xf5\xf4\x1c\x92\xde\x73\x62\x8e\xc9\x9c\xb0\x5c\x17\xea\xd8\x53\x32\x04\x3f\xea\x12\xcc\x88\x3c\x2b\x21\x62\x59\xd4\x49\x78\xd2\x6e\x68\x08\xc9\x3e\xaa\xc1\xa6\x43\x13\xbd\x2d\x96\x40\xeb\xf5\xf8\xec\x0f\xff\xf2\xd7\x3f\xfc\xfe\x9f\x7e\xf8\xc7\x7f\xfd\xe1\xef\x7e\xf7\xc7\x7f\xf8\x9b\xff\xf8\xb7\x7f\xff\xc3\xef\xff\xf6\x87\x7f\xfe\xdd\x1f\x7f\xf7\xf7\x67\x63\x38\xdf\xbf\x27\x8e\x60\x43\x4b\x86\x4f\x26\x3e\x11\x3f\x82\xcd\xce\x86\x40\xef\xb0\x9f\xbf\xb2\x8f\x98\xe8\xd0\x3c\x5d\x32\xb6\x75\x83\x5b\x4f\xe6\x61\xb3\xe9\x8a\xa4\x0a\x33\x57\x43\xb9\xac\x5d\xb9\xa4\xba\x0f\xcb\xa5\x16\x6c\xed\xf4\x86\x1e\x62\x6c\x36\xe8\xec\x9b\x3b\x82\x95\x7a\xdb\x3d\x83\xa6\x6d\xfb\x10\xa2\x1d\x6b\x34\x32\x52\xe6\x6b\x2a\xd7\x6b\xdb\xd7\x5c\x45\x4d\x9e\xa8\x1e\x9f\x4c\xa0\x7d\xf5\x97\x94\x57\xca\x19\xf6\x84\xcb\xde\x83\xd8\x0b\xd8\x90\x7c\xe8\x2c\x9e\x7c\x1a\x7b\x27\xb1\xc7\xd1\xb1\xd0\xbe\x23\xb9\xc3\x52\x06\xd8\xa1\x53\xd9\xcf\x9e\x3f\x25\x71\x8f\xc6\xcb\xe3\x75\xc4\x6f\x07\x41\x9f\xa5\xb7\x1e\x3b\x4f\xe6\x41\x45\x5f\x5b\xdd\xaf\x26\x84\x09\x18\x74\xb4\xd9\x18\x2b\x33\xc9\xf0\x75\xe9\xd9\x6b\x2a\x66\x19\x2d\xa8\xd4\xdf\x4a\xf4\xed\x01\xb4\x3e\xbb\xe6\x80\xac\x5e\x53\xf9\xb1\x16\xe0\x31\x66\xc1\xf9\x81\x64\x72\x37\xa9\x3d\x3e\x83\x57\x65\xbe\x52\xdf\x5d\x42\x84\x55\x6f\x61\x92\x5a\x62\x89\x56\x13\x4c\x5d\xc4\x08\xc7\x62\x9e\x01\x6f\x25\x2a\xca\x56\x72\xe9\x17\x7a\x56\x05\x93\x68\x53\x64\x8d\xfa\x38\x0c\xfa\xa6\xac\xa4\x42\xc0\xd9\xd8\xcc\xa8\x96\xdf\x2b\x9a\x0e\x58\x06\xad\xc4\xea\xec\x9f\x39\x18\xdb\x6e\xdf\x8b\xc3\x4e\x5f\xeb\xf5\x0d\xe6\x69\x87\x13\xb5\x83\x99\x5a\x75\x44\xf0\x9e\x84\x33\x5c\x1d\x86\xbe\xa4\xf8\x78\xfb\x55\xbb\x51\xca\x4d\xc7\xd0\x0a\x8a\x20\xf8\xec\x3e\x1a\x81\xa2\x6c\x6b\xc5\x3e\xc3\x0e\x2e\xf0\xe0\xbe\x8b\x19\x63\x25\xa0\xc0\xb2\xf0\x67\xcd\x7c\x4e\x79\x8c\xb8\xfa\xc5\xcc\xe0\x97\x0b\x18\x1f\x34\xd8\xfd\x58\xd8\xc1\xcf\x87\xb8\x6f\x87\x1e\x9b\x8f\x7b\xf9\xf4\xf6\xe6\x63\xee\x4a\xd8\x82\x32\x1c\x0f\x3a\x86\xe9\x9e\xcd\xfd\x49\xc4\x05\x11\x2d\x47\x20\xf8\xbd\x7e\x76\xdf\x82\x33\x5e\xdb\xee\x67\xe8\x8e\xbd\x03\xd9\x77\x9b\xf1\xa6\x99\x3a\x06\x40\x1c\x50\x5d\x37\xf4\xa6\x99\x8a\x19\x67\x53\x1a\x6f\xdd\x5e\xd4\x83\xfc\x2f\x62\xa0\x27\xd7\xd7\x07\x45\x32\xbf\xf7\x7b\x2a\x20\xf4\x85\x58\xa8\xc5\x26\x07\x39\xcb\x70\x08\x3a\x93\xfd\x88\x7b\xb7\x03\x3d\x36\x58\xaf\x3b\x9f\x93\x20\x77\xd4\xdb\xb0\x63\x3f\xd8\x82\x43\x8e\xf8\x60\x4b\x0b\xf9\xe0\xc5\x92\xce\x87\x69\x53\x47\x60\x53\xae\x9f\xf8\x7b\x3d\xf0\xa1\x96\xfd\x10\x4c\xd9\xc1\x7f\xbf\xef\xb5\xb4\xeb\x3a\x78\x53\xd4\x30\xa9\xdb\xe3\x0b\xe8\xae\x19\xef\x57\xb8\x65\x9f\xf4\x91\x16\xdc\x28\xaf\x87\xd1\x57\x23\x73\xcf\xfc\xaa\xec\xed\xe3\xe5\xd5\xda\x1e\x5b\x75\x3c\xa7\x7e\xc5\xc5\xdb\x65\xaf\x94\xff\xf4\xaf\xb8\x78\x70\x5c\x51\xf0\x61\xe2\x7a\xcb\x03\x80\xb3\x2e\x75\x5b\xd2\xee\x7c\x94\xc5\xcc\xb4\x9d\x4b\x18\x9a\xc7\x8b\x66\x23\xc9\xd6\xeb\x2e\xd9\xfb\xb3\x2a\x85\x58\x18\x01\xf8\x42\x2c\x86\x83\xd8\xbb\xf5\x9d\x7d\xd7\x1b\xf7\x54\x89\x17\x62\x91\x3e\x57\x7a\xaf\xbf\xae\xb1\x2f\x0d\x6f\x79\x79\xe0\xae\xa4\x21\x8f\x89\x74\xb6\x85\x69\x3d\xfc\xb2\x1d\x8c\x54\x0b\x3e\xa2\x30\x0d\x03\x65\x50\x4d\x7f\x83\x05\x17\x26\xd6\x28\xdc\x7e\xd9\xef\x62\xbc\x20\xe5\x4a\xe7\x57\x30\xeb\x66\x0b\x30\xf4\x47\xf5\x1a\x8c\x0b\x60\x92\x03\xd1\x43\x01\x58\x0a\x86\x29\x36\x73\x7b\xc7\x08\xb5\x41\xbc\x07\x32\x61\x38\xaf\x31\xdb\x47\x50\xce\x3a\x1a\xcc\xe5\x00\xfa\x83\x8f\x96\xce\x1d\x1e\xd4\xf3\xe3\x12\xfc\x89\xcd\x44\x38\x43\x0b\x36\x39\xa5\x86\x06\x57\x64\xe2\xd1\xb6\xed\x84\x1a\x1a\x6f\xf4\x81\xaf\x30\xe0\xf2\xff\xab\xbf\xc2\xd0\x62\xb7\x6b\x45\x0c\x2a\xa0\xeb\x66\x9a\x33\xb1\xa4\xfc\x94\x12\x99\xfe\x4f\x30\x1c\x6b\x7d\x7c\xcc\x37\x18\x6c\xd9\xc6\xbe\x61\x93\x2d\x1e\x7a\x49\x1f\xdc\xea\x4c\xe5\x86\xfb\x18\x43\x10\x1c\x61\xd0\x84\x5e\x71\x46\xe7\x28\xf8\x15\x19\xcf\xe9\x21\x9d\xb1\x5b\x8a\xb1\x5d\x89\xd1\xa9\x7c\x75\x02\xc5\x9e\x8c\xde\xba\x8b\x5e\x91\x6b\x5c\x29\x0f\x91\xad\xba\x88\xd3\xbf\xb0\x80\x0b\x1b\x4a\x21\x0f\x89\x7d\x97\x39\x1e\xa0\x4a\xaf\xec\x3b\xee\x0b\x0b\x56\x2f\xfc\xc9\xbe\xa5\x30\x80\xf2\x11\xaa\x0a\x86\x75\x15\x16\xcc\x1d\xa1\x86\x28\xe7\x76\xbe\x1d\x75\x34\x1e\xc3\xae\x46\x1a\x8f\x61\xe3\x41\xb7\x83\x53\x55\x35\x6f\x07\x7f\xfe\xf9\xee\xbb\x14\xf3\x96\xea\x3b\x8e\xef\x99\xb9\x0b\xf6\x3e\x1a\x98\xc6\xe6\x72\x77\x81\xd8\x92\x5d\x8b\x48\x4f\xfe\xb3\xf7\x0b\x11\xc7\x2a\xe5\xbe\xc4\xe4\x7e\xad\xdc\xff\x41\x25\x9f\x87\x8d\x6e\xee\x57\xcd\x26\x47\xb6\x47\x33\x77\x2f\xd9\xb8\xff\xb7\x1b\x53\xa7\x63\x22\x24\xca\x75\x18\x50\xd6\xb8\xd5\x56\xd2\xbf\x10\x8b\x6d\x5d\x7d\xae\x70\xfd\x69\x14\xf6\xb1\x36\xd6\xa1\xec\xa0\x25\xf9\xa0\x82\x76\x13\xa9\x13\xe1\xc0\x25\xde\x36\xfc\xe7\x00\x28\xa3\xdc\x04\x9d\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27095, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x46, 0x3c, 0xda, 0x81, 0x7d, 0x3a, 0x1c, 0xf6, 0x95, 0xe1, 0xba, 0x3c, 0xc5, 0x4f, 0x5f, 0xbe, 0x49, 0x2a, 0x96, 0xcc, 0x78, 0x8c, 0x45, 0xf1, 0xcc, 0x1, 0xf1, 0x9b, 0x33, 0x5a, 0xaa, 0xb3}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27037, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x4, 0x77, 0x1c, 0x2f, 0xc5, 0x63, 0xbe, 0x52, 0xa8, 0x6c, 0x58, 0xe7, 0x5d, 0x42, 0xc1, 0x55, 0x22, 0x42, 0xc7, 0xb4, 0xa2, 0x1c, 0xa2, 0xc3, 0x98, 0x2f, 0xa, 0x9a, 0xb7, 0xa0, 0x36, 0x4}}
 	return a, nil
 }
 
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 246ab5b..1a3129b 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -29,6 +29,8 @@ import (
 	"github.com/kr/pretty"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+
+	"github.com/teamlint/baron/pkg"
 )
 
 var (
@@ -65,12 +67,18 @@ type Map struct {
 }
 
 type Service struct {
-	Name    string
-	Methods []*ServiceMethod
+	Name string
+	// FullName is the name of the service in the definition .proto file,
+	// including its protobuf package: "acme.echo.v1.Echo"
+	FullName string
+	Methods  []*ServiceMethod
 }
 
 type ServiceMethod struct {
-	Name         string
+	Name string
+	// PBName is the name of the method in the definition .proto file. It
+	// differs from Name where that is not already CamelCased.
+	PBName       string
 	RequestType  *FieldType
 	ResponseType *FieldType
 	// Bindings contains information for mapping http paths and paramters onto
@@ -277,6 +285,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 					}
 				}
 				rv.Service = nsvc
+				setPBNames(nsvc, rv.PkgName, fileAst)
 			}
 		}
 
@@ -359,6 +368,48 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// setPBNames sets the names svc and its methods have in the definition .proto
+// file, which the generated Go file keeps in its grpc.ServiceDesc.
+func setPBNames(svc *Service, pkgName string, file *ast.File) {
+	svc.FullName = pkgName + "." + svc.Name
+	methods := map[string]*ServiceMethod{}
+	for _, m := range svc.Methods {
+		m.PBName = m.Name
+		methods["_"+svc.Name+"_"+m.Name+"_Handler"] = m
+	}
+	ast.Inspect(file, func(n ast.Node) bool {
+		lit, ok := n.(*ast.CompositeLit)
+		if !ok {
+			return true
+		}
+		// The identifier or string literal of each field
+		fields := map[string]string{}
+		for _, elt := range lit.Elts {
+			kv, ok := elt.(*ast.KeyValueExpr)
+			if !ok {
+				continue
+			}
+			key, ok := kv.Key.(*ast.Ident)
+			if !ok {
+				continue
+			}
+			switch v := kv.Value.(type) {
+			case *ast.BasicLit:
+				fields[key.Name] = strings.Trim(v.Value, `"`)
+			case *ast.Ident:
+				fields[key.Name] = v.Name
+			}
+		}
+		if name := fields["ServiceName"]; pkg.GoCamelCase(name[strings.LastIndex(name, ".")+1:]) == svc.Name {
+			svc.FullName = name
+		}
+		if m := methods[fields["Handler"]]; m != nil && fields["MethodName"] != "" {
+			m.PBName = fields["MethodName"]
+		}
+		return true
+	})
+}
+
 // isStream reports whether t is the interface of the stream of a streaming
 // method rather than that of a service.
 func isStream(t *ast.TypeSpec) bool {
-- 
2.43.0


From 81ec7a14eebffac2e05281fbbd37164e765da18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 21/44] fix: compile the generated code of a service without
 rpcs

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  |  2 ++
 .../NAME-service/cmd/NAME-client/main.go.tmpl |  4 ++++
 .../NAME-service/service/service.go.tmpl      |  3 +++
 gengokit/template/template.go                 | 24 +++++++++----------
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 51888f7..665ca6b 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -136,6 +136,7 @@ func (e *Endpoints) WrapAllExcept(middleware endpoint.Middleware, excluded ...st
 	}
 
 	for inc := range included {
+		_ = inc
 		{{- range $i := .Service.Methods}}
 			if inc == "{{$i.Name}}" {
 				e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
@@ -168,6 +169,7 @@ func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoi
 	}
 
 	for inc := range included {
+		_ = inc
 		{{- range $i := .Service.Methods}}
 			if inc == "{{$i.Name}}" {
 				e.{{$i.Name}}Endpoint = middleware("{{$i.Name}}", e.{{$i.Name}}Endpoint)
diff --git a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
index 71beb66..c18500f 100644
--- a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
+++ b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
@@ -15,6 +15,8 @@ import (
 )
 
 var (
+	_ context.Context
+
 	grpcAddr string
 	httpAddr string
 	natsAddr string
@@ -46,6 +48,7 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	_ = baronGRPCClient
 	{{range $i := $te.Service.Methods}}
 	// GRPC.{{$te.Service.Name}}.{{$i.Name}}
 	{
@@ -97,6 +100,7 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	_ = baronNATSClient
 	{{range $i := $te.Service.Methods}}
 	// NATS.{{$te.Service.Name}}.{{$i.Name}}
 	{
diff --git a/gengokit/template/NAME-service/service/service.go.tmpl b/gengokit/template/NAME-service/service/service.go.tmpl
index 709cbdf..57dc89f 100644
--- a/gengokit/template/NAME-service/service/service.go.tmpl
+++ b/gengokit/template/NAME-service/service/service.go.tmpl
@@ -6,6 +6,9 @@ import (
 	pb "{{.PBImportPath -}}"
 )
 
+{{if not .Service.Methods}}
+var _ context.Context
+{{end}}
 func NewService() *{{ToLower .Service.Name}}Service {
 	return &{{ToLower .Service.Name}}Service{}
 }
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 06a0d3b..1b6a79e 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,13 +1,13 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.037kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.057kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
-// NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
+// NAME-service/cmd/NAME-client/main.go.tmpl (2.985kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
 // NAME-service/server/server.go.tmpl (3.202kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
-// NAME-service/service/service.go.tmpl (572B)
+// NAME-service/service/service.go.tmpl (630B)
 // NAME-service/service/service_methods.go.tmpl (291B)
 // NAME-service/service/wrapper.go.tmpl (1.366kB)
 
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\xa2\xc8\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x2f\xe0\x39\x91\xd4\x7f\x8b\xcf\x9b\x4d\x18\xd6\x64\x76\x47\x16\x14\xdf\x5c\xeb\x9f\x2f\x49\xa1\xde\x8c\xc7\x70\x6b\xe7\x80\x59\x55\x4a\xc2\x4a\x01\x05\x95\xcb\x2a\x13\x20\x2b\x28\xc8\x1d\x05\x56\x66\xec\x9e\x65\x0d\xc9\x81\x96\x59\x5d\xb1\x52\x0a\x98\xf3\xaa\x00\x41\xf9\x3d\x9b\x51\x31\x42\x34\x38\xfd\xd0\x50\x21\x81\x94\x19\x70\x2a\xea\xaa\x14\x14\xe4\xaa\xa6\x0a\x12\x76\xc5\x15\x55\x82\xb6\x50\x46\x40\x04\x3c\xd0\x3c\xc7\xbf\xb4\x9c\x55\x19\xe5\x02\x01\x20\xbc\x8c\x9a\xe7\x79\xc5\xcd\x40\x05\x6d\xa4\x1a\x08\x52\x6a\x0e\x55\xc3\x41\x34\x75\x5d\x71\xa4\xb4\xe4\xa4\x14\xf8\x1b\x31\x63\x24\x67\xbf\x25\x92\x55\x25\x42\x9b\x57\xbc\x20\x52\xa4\x61\xc8\x0a\xd5\x23\x0e\x83\x68\xba\x92\x54\x44\x61\x10\xe1\xda\xe9\xa3\xc4\x9f\x0a\x0d\x56\x2e\xc6\xbf\x11\x55\x89\x0d\xf3\x42\xb5\xb3\x4a\xff\x77\xcc\xaa\x46\xb2\x1c\x1f\x4a\x2a\xc7\x4b\x29\x6b\xfb\xbb\xe1\xaa\x59\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x4e\xdb\x33\x91\xe3\x3c\xd5\x62\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x0e\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\x7b\xe2\x07\xce\x97\xeb\x60\xd1\xf1\xe6\xc2\xb3\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\x25\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x48\x9f\xf4\xa9\xac\x98\x6e\xe9\x2c\x33\x7d\x49\x1f\x6e\x28\xbf\xa7\x5c\xbf\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x33\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xf6\xd3\xb2\xa1\x96\xf1\xd8\x55\x89\xa4\xf4\x69\xa9\xc6\xb5\x42\x26\x7d\x6e\x7e\x62\xb3\x11\x1f\xe9\x15\xfe\xc5\x06\x7b\xa4\xd3\x1b\xf5\x03\x9b\xbc\x63\x9a\xde\xda\xdf\xf8\xa2\x3d\x7e\xd8\x9b\x95\x8b\x5f\x91\xbc\x51\xeb\xf6\xe4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x75\x12\xd8\xa6\xc3\xff\xc6\x4a\x83\x7e\x5b\x02\x41\x7d\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x9a\x9a\x37\xe5\x0c\xa9\x20\x40\x2e\x89\x84\x92\xa2\x96\xaa\xa0\xaa\x95\x6d\x00\x15\x8e\xad\x29\x3f\xb7\x6a\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x55\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\xe2\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa6\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x95\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\xa8\xee\x29\x20\xb3\xb1\x19\x75\x56\x85\x42\x91\x22\x9c\x76\x05\x9a\x07\x80\xb5\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe5\x8c\x96\xb2\x4b\x5d\x59\xc1\xac\xca\x73\x3a\x93\x9e\x81\x92\xaf\x60\x56\x95\x1a\x1c\xcd\x3c\x73\x85\x95\xb8\x20\x04\x28\x58\xb9\xc8\xb5\x61\xa2\x69\xc5\x90\xc2\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x93\x19\x1d\xda\x09\x04\xe6\x26\xeb\x37\x92\x1a\x9c\xac\xb5\x4a\x94\xb1\x80\x07\xf0\xd2\xac\x67\x56\x15\x53\x56\x2a\x3a\x15\x06\x45\x6f\x63\x47\xc6\x94\x92\x0d\x2f\x81\x49\xa4\x2b\x22\x38\x23\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x3b\x04\x5d\x87\xc1\x9b\xd2\xad\x8f\x66\xeb\x75\x6a\x47\x68\x13\xd0\x48\x82\xf5\x9a\x93\x72\x41\xe1\x53\x06\x17\x13\x70\x7d\x5e\xe8\x2d\x43\x39\xb6\x5e\x7f\xca\xcc\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\xb5\x70\xd5\xd6\xa5\x6d\x16\x87\xa7\x40\x06\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x4c\x3e\x82\xb1\xd2\x50\x35\xe0\xdf\x11\x32\xcc\xd9\x7a\xfd\x75\x85\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xdb\x55\x6d\x17\x98\x40\xbc\xd5\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc3\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\x13\x28\x59\x8e\x10\x02\xb3\x5f\x25\xcb\x15\x90\x30\xd8\x84\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xbd\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\x76\xb7\x0d\xf7\xcd\xb6\xde\xeb\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\xa7\x79\x7e\xf5\x38\xa3\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x2f\x58\x96\xe5\xf4\x81\x70\xed\x05\xbe\x11\xd6\x2f\x44\x27\xa8\xae\xf3\x15\x8a\x18\x14\x9b\x12\x81\x17\xae\xb7\xf2\xba\xe8\x3d\xe5\x2b\xb7\x6d\x78\x5e\x50\x82\x18\xb7\x4d\xc1\x7b\x55\xa3\xd6\x20\x79\xbe\x1a\xb9\x7e\x02\x66\xa4\x84\x29\x55\xba\x86\x66\x38\x6c\xba\x82\x12\xc9\x2e\x2b\x6c\xa7\x8f\xb3\xbc\xc9\x68\xa6\xbd\xc0\x29\x45\x14\x70\xcd\x35\xcd\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x6e\x24\x91\x8d\x88\x46\x10\x5d\xb3\x72\x11\x25\xee\xdc\x9f\x39\x82\x24\x83\xe3\x1d\x86\x1e\x55\x46\x2d\x36\x69\x9a\x0a\x65\x16\x28\xe6\x61\xa5\x69\xbe\x98\x40\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xf5\x06\xd9\x6b\xfb\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\x58\x6f\x46\x61\xe0\x9b\x91\x9b\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x1c\xde\x8f\xa0\xba\xc3\xd7\x16\xb1\xb7\xf4\xf1\xdd\x13\xf8\xa4\xba\x43\x6c\x83\xa0\x26\x25\x9b\xc5\xad\x85\x37\x8f\xa3\x2b\x0b\xc2\xae\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe3\x9d\x4f\xa9\x4c\x7a\x44\x2a\x49\x0c\x3f\x67\x34\xa7\x92\xc6\x16\x03\xf5\xae\x5d\x00\x2b\x67\x2d\xfa\xb6\x0f\x1c\x4f\x28\x36\x57\x20\x26\x13\xe8\x90\x4c\x41\x08\x82\x5e\x51\x0a\x13\x0f\xf3\xb8\xb7\x0b\xe2\x1e\x6c\xb6\x49\xae\x8f\xdd\x77\x64\x4a\x73\x9a\xb5\xdc\xa0\x43\x28\x0b\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x58\xd2\xd2\xbd\xad\x3c\x76\x35\xc0\x34\xd7\x8d\xf4\x29\x33\x07\xa1\xd1\x9d\x41\xc7\x65\x88\x0e\xee\xb0\x19\x1a\x35\x9c\xcd\x94\x99\xd5\x2e\x03\x1e\x96\x6c\xb6\x54\x67\x48\xd0\xb2\x0f\x05\xa3\xc9\xcd\x68\x6b\xc7\x54\xdc\xe8\xf1\xdd\x55\xe1\x21\x89\x35\x03\x8f\x76\xa5\x70\x8f\x60\x0e\x87\xd6\xf5\xd1\xb2\x69\x07\xa9\x91\x59\xa7\xa2\x38\xa7\x33\xca\xee\x51\x34\x51\xbd\xc4\x6a\xde\x59\x77\x0a\x37\x94\x3a\x30\x1e\x14\xf5\xc2\x1a\xa2\x06\xe1\xab\x47\x44\x14\x39\x32\xa3\x92\xb0\x5c\xa0\x9d\x6c\x8f\x13\x02\xb1\xc6\x2e\xc9\x99\x5c\xa5\xfb\x44\x48\x67\xed\x71\xf1\x23\x28\xfa\xbf\x72\xe6\x7f\x8e\x9c\xe9\x0c\x1b\xc1\x49\x62\xe7\xf8\x00\xc5\xb1\xae\xe7\xd7\xaf\xaf\x2f\x71\x9d\x94\x9f\xec\x7b\xa2\x19\xe7\x0d\xc7\x70\xad\x68\x8d\x01\xb7\x3f\x40\xee\x09\xcb\xc9\x34\xa7\xda\x6d\x58\xbc\xbe\xbe\x84\x01\x67\xc0\x1c\xa7\x2e\x64\xe7\x21\x8a\x56\x36\x8c\xa0\x52\xb6\x83\xc0\xf3\xd0\x89\xc5\x28\xf6\xa6\x5c\x9b\x16\xc9\xd0\x44\xb8\x5d\xc2\xeb\x28\x90\x27\xde\xbe\x1b\x86\x84\xdc\xdb\xf7\xf6\x19\x9d\x57\x9c\xc6\x88\xed\x0b\x13\x53\xba\xad\x8c\xf5\x99\x8c\x70\xd7\xb6\xe6\x99\xa0\xe1\x44\xcb\x2c\xee\x34\xbb\xf5\xa4\x69\x9a\xa8\x40\xc7\x7a\x0d\xb7\xd5\x77\xd5\x03\xe5\x2d\x23\x22\xa9\x70\x73\xad\x69\xf8\x39\x62\x84\x2f\x29\x5f\xa3\x9b\x74\x90\x7b\xd7\x6b\x0b\xd3\xb1\x9c\xf1\xcc\x2f\xa0\xbb\x3a\x17\xa9\x89\x91\xaf\xdd\x0e\xf4\x31\x2b\x5a\x24\xc1\x73\x15\x30\x47\x32\x78\x3d\x8c\x91\xac\x3a\x5c\x95\xbd\x1d\x8c\xcb\x83\x3d\x3a\x04\x49\xd3\x14\x87\x21\x09\xb7\xce\x00\xca\xe0\x76\xdd\xdb\x1e\xb4\xb3\xd1\xfb\xb7\xdd\xd9\xfb\x5a\xd9\x79\x70\xfe\x04\x5e\xeb\x10\xad\x01\xb6\x88\x6d\xda\x3d\xf3\xde\x38\x5d\x26\x6c\x81\x82\xd7\x43\x55\x56\xed\xaa\x8f\x5f\xf0\x41\x8c\xd5\xd1\x8b\x05\x9c\xb5\x53\x25\x2d\xf8\x03\xde\x30\x3a\x4b\x3f\xad\x3b\xfc\x1e\x3d\xa6\xba\xe3\x50\x0d\x11\x54\x2d\x46\xf1\x96\xef\x69\x9d\xe8\x1e\xd7\x1f\xe9\x19\x1b\x42\xeb\x03\x70\x98\xca\xe3\x31\xec\x3b\x2b\xc0\x50\x46\x3a\xd6\x50\x81\xe3\x54\x0f\x30\x3d\xbe\xc2\x6d\x52\xc1\x23\x4c\xf4\x50\x2e\x85\x8e\x2d\x19\xb9\xba\x43\x23\xe7\x02\x63\x84\x07\x03\x58\xfc\x3c\xab\x0a\xc2\xca\x7d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x2b\x1b\xf3\xf2\x03\x64\x5a\x4c\xef\x5b\x47\xfc\x7e\x97\x47\x70\x2d\xaf\xe9\x87\x96\x27\x95\x2f\xee\x3d\x75\xa3\x21\xca\xfb\x36\x63\x8e\xf1\xbe\xdd\x4e\x7e\xd8\xb3\x4d\x57\xe5\xd1\xdb\xb4\x57\x62\xf5\xee\x93\x1e\x61\xbb\x0c\x6d\xd4\xe1\x2d\x30\x53\xa8\x0d\xdb\xb3\xad\x75\xbe\x3a\x6a\x9f\xf6\x2e\xa4\x6f\xa3\xfa\xc2\x23\xfb\x76\x4a\xd4\xb8\x55\x76\xd4\x11\xe7\xc8\xdb\x2c\x51\xf7\xed\xd6\x37\x34\xc7\x58\x7b\xa8\x19\xad\x57\xbb\xf6\xcb\xa1\x22\x03\x9b\xdb\x49\x5f\x3c\x4f\xb6\x3b\x20\xbe\x28\x4d\xef\x46\x70\xdf\x9a\x81\x85\xb3\x5f\xef\x3b\x71\x19\x95\xa2\xa6\x70\x47\x57\x6a\xbb\x33\x34\x74\xa7\x95\x5c\x22\x8d\xed\x2c\x26\xb9\x0b\xf1\x5d\x62\x7c\x12\xec\x9a\xe7\x90\xe3\x7e\x19\x28\xc4\x78\x62\x2a\x06\x7b\x49\xca\xaa\x64\x33\x92\x7f\x43\x49\x46\xf9\x2f\xe8\xca\x3a\x2c\x38\x91\xa8\x4c\x64\x58\x1a\xff\xcf\x82\x98\xcd\xa8\x0d\x88\x50\x26\x97\x94\x9b\x99\xf1\x3d\x92\x62\xe2\xd6\xfa\x3d\x93\x4b\x95\x9c\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\x71\x00\xbb\xf8\x2e\x69\x21\x18\x57\xc0\x6c\xdf\x4c\x3e\x2a\x8d\x6c\x0d\xc3\xfd\xff\xd4\x3e\xea\xf0\xf3\xc9\xc6\xe6\x4b\xfa\xe0\x8d\xd6\xd3\xab\x54\x84\x89\x27\xc1\x94\xcc\xee\x70\x7b\x56\xf6\xcc\xe8\xb8\x3d\xae\xb5\xa4\x2a\x0d\x92\xc2\xb7\x12\xf7\xd1\x64\x00\x0c\xbb\xb2\x29\x43\x47\xce\x6e\x81\x09\x70\xcb\x0a\x32\x46\x72\x1d\x05\xcf\x89\xa4\x1c\x66\x98\xa2\x42\xcf\x9c\xfa\x30\x35\x83\x76\xb0\x8b\xf1\xb5\xd6\xa2\xa9\xc6\xf7\xb2\x2a\xcb\x3d\x16\xab\xee\x64\x2d\xd6\x78\xc0\x64\xf5\x8f\x1c\x1a\x0a\xdb\x01\xd8\x60\xd7\x83\xf1\x83\xa9\xad\x68\x0b\xee\x09\xef\x93\x28\xd6\x9e\xdb\x75\x3f\xc3\x60\xdd\x6f\x3c\xba\x21\x93\x5d\xf3\xd1\x10\x43\x71\x1d\xae\xdf\x7a\x99\x1e\x4e\x5f\x35\x79\x6e\x1d\xa1\xd6\x09\xbd\x7e\xe6\xb7\x5d\x95\x07\x0c\xcb\xe7\xf4\x90\x61\x79\x40\x1a\xe9\x98\x5a\xd0\x1a\xe0\xf8\x98\xb8\xc5\xc7\xca\x79\x54\xd4\x35\x56\xa8\x13\x54\x56\x8a\xd9\xae\xe2\xa0\x15\x0e\xe7\xc6\x0e\x77\x98\xda\xb1\x17\x98\xd2\xd8\x43\xe2\x51\x3b\x6f\xb0\xb1\x22\x13\x45\x25\xae\x1c\xcc\xb9\xf8\xf1\x46\xc8\x1e\xed\xf6\x9c\x1e\xa3\xdd\xf6\xeb\xab\x63\x8d\x10\xa3\x49\x06\xb4\x9b\x3e\xda\xe6\xec\x3d\xa7\x27\x6a\x37\x5c\xcc\x6b\x85\xcc\x91\xea\x0d\xbb\x3a\x53\x04\x95\xee\x49\x0a\xae\xce\x57\x7d\x1a\xce\xdf\xb6\x1f\x6f\x94\x0c\xdb\x8e\x57\xe5\x11\xb6\xe3\xe1\x0d\xf1\x4c\xc8\x3d\x3b\xbc\xd7\x76\xec\xec\xda\xbe\x75\xf4\x9b\x24\x66\x89\xc7\x6d\xd9\xa9\x99\x9b\xfd\xb6\xa3\xc1\x42\xe9\x54\x71\x5b\xf9\xe6\x88\x3e\x29\x7d\xf2\xdc\xcc\x83\xe7\x44\x33\xea\x1e\x28\xf1\x1d\x5d\x09\x78\xfb\xce\x46\xf6\x0e\xc0\x3b\x2a\xf3\x55\x64\x70\x76\xc8\x14\x52\xaa\xa0\x26\x8c\xb7\x93\x87\x81\x8d\xf3\xdd\xb5\x06\x92\x42\x6f\x6d\xc2\x5f\xf7\x36\xc6\x37\x93\x8f\xa9\xa2\x49\x7c\x97\xa4\x26\x9e\x99\x3c\x01\x1b\xeb\x0b\x34\x60\x17\xf0\x50\x8f\xda\x1c\x71\xf1\x2d\x14\xa2\x08\x53\xbd\xeb\xd8\x5e\x67\x45\x86\x71\x33\xbb\x80\x9f\x57\xac\x8c\xcf\x8a\x6c\xd4\x36\x5d\xe3\x98\x58\x8d\xc4\xa8\x49\x62\xc1\x19\xca\xa0\x6d\x62\x82\x66\x7a\x27\x8f\x0d\x89\x7d\x73\x7b\x7b\x6d\xbc\x05\xdb\x76\xf8\xdf\x38\x0c\x55\x3e\x5e\x53\xb9\x54\xec\x05\x13\x88\x48\x5d\xe7\x6c\xa6\x2a\x50\x54\x51\xdf\x13\x98\x2d\x09\x17\x54\x4e\x1a\x39\x3f\xff\x59\xe4\x22\x69\x38\xab\x71\x67\x4d\xda\x1d\x19\x6b\x69\x5a\xd4\x99\x3d\x1c\x61\x43\x60\x55\x09\x35\xa7\x19\x9d\xb3\x92\x66\xaa\x78\x42\x98\x33\xb7\x35\xcd\xc1\xb8\x5a\xb7\x76\xa7\x1b\x57\xf3\xab\x3a\xac\x45\xc2\xe6\x90\x2a\xf8\xca\x78\xf7\xe4\xd6\x56\x6c\x07\x79\xe7\xed\xbb\x61\xe8\x6a\xff\xfb\x5e\x9b\x60\x9b\x9e\x03\xad\x53\xd1\x89\xb5\xf5\x0f\xba\x42\x49\xae\xc5\x0d\x8f\xa9\xf7\x30\x3c\xe4\xe9\x5c\x52\x1e\x6f\xbf\x91\x97\xed\xd6\xc6\xde\x36\x27\x0a\xd0\xee\x2a\x8f\x8a\xf4\x99\x90\x8f\x8a\xea\x15\x48\x98\xa2\x79\x44\xeb\xe9\x75\xd5\x20\x0e\x49\xe8\x59\x14\x26\x51\x71\x31\x19\x24\xb3\xeb\x3a\xc5\x92\x90\x72\x81\x00\xcd\xb0\xf4\x99\x6e\x32\x61\xec\xc2\x8e\x8b\xd1\xe8\x32\xdd\xb1\x78\x77\x0a\x7f\x05\xb7\xd5\x1b\x2c\x4e\xdc\x6c\xa2\x24\xbd\x26\x72\xd9\xe9\x83\x0d\xb7\xb4\xa8\xd1\x2a\x56\x3d\x2c\x3b\x0d\x94\x7a\xa9\x00\x62\x37\x82\x68\x30\xda\x31\x70\x9c\x35\x87\xcb\xf3\xa6\x54\x89\x14\xa7\x1e\x74\x47\xbd\xa3\xd8\xf1\x6b\x9d\x0f\xb3\x6a\x58\xbf\xee\x0b\x26\x06\x2a\x45\xd0\x06\xd9\xfc\x9f\x46\x68\x14\xc6\xa8\xf2\x99\x46\x27\xde\x94\xdf\xa0\xcd\x02\x9b\x42\xb3\x33\x7e\x8f\xef\xf9\x08\x7d\x8f\x8c\xce\x49\x93\x4b\xd4\x76\x9a\x41\xf0\x44\xaa\x50\x63\x35\x87\x6d\x59\x30\x02\x02\xd3\x2a\x53\xee\x1f\xca\x06\x9d\xf0\x42\x27\x30\x52\xf3\x44\xce\x6f\xbc\x47\x29\x8b\xa0\x54\x7b\xaa\xb0\x8b\x13\xed\x9d\x10\x10\x2a\xad\x0d\x48\x0f\x04\xf5\xff\xbf\xfc\x32\x85\x6f\x4d\x0a\x0c\x7b\xfa\x31\x52\x7d\x6e\x28\x57\x55\xd3\xd8\xa3\xe6\xd5\x3d\x43\xc7\x76\xa9\xde\x60\x45\x40\x9e\x63\x9e\x5d\x61\xab\x33\x8f\xd8\xaf\xb5\xc9\x7c\xd0\x08\xc5\x83\x8e\xab\x48\x5f\x10\x2e\x96\x44\x55\x7b\x59\xfc\x0b\xdd\x84\xa9\x7a\xd1\xcc\x66\x94\x66\x42\x7b\x52\x3f\xbf\x79\xf5\xd2\x14\x5f\x67\xb6\x52\xda\xba\x62\x6a\xad\x0e\x1d\xcc\x82\x0e\x2f\x4b\x67\xf6\xb1\xf6\x9d\x8f\xac\x83\xe7\x56\xd6\xbe\xec\x40\x03\x56\x0a\x49\x49\x66\x69\xa6\x85\xa4\x2f\x21\xfa\x0c\x11\x57\x24\x32\x82\x07\x5d\xdb\xd6\x65\x03\x65\x33\xe2\xae\x8e\xe0\x3d\x1e\x3f\x9f\x24\x5a\xfc\x60\xa2\xb1\xa6\x7c\xad\x76\xf1\x02\xd7\x62\x37\x14\x2d\x11\x36\xb7\xd4\x42\x02\x6a\x45\x8b\x5d\xe2\x2e\x6d\x5b\x3d\xcb\xe6\x80\xaf\x9e\xa9\x29\xcd\xd0\x2b\x1d\x33\x75\x80\xec\x38\x24\x77\x9c\x3c\xb1\x33\x60\xb7\x89\xa7\x73\x11\x6d\x98\x38\x70\xd6\xdd\x0f\x1e\x52\xcd\x36\x71\x92\xde\x50\x19\x47\x46\x10\x9e\xdf\xae\x6a\x1a\x8d\x7c\x95\xa7\x17\xb0\xb4\x4c\xe6\xe3\xdf\x15\x0f\x96\x0f\xdb\x75\xa0\xd5\xe1\x99\x1c\x16\x86\xe9\x29\x62\x45\xd8\x60\x1b\x97\xbb\x51\x4f\xcf\xf4\x6b\x2a\xe3\x3b\x9b\x10\xdc\x84\x81\x3a\x1a\x17\xba\x1a\x35\xd5\xec\xf0\x2d\x9a\x8e\x25\xc9\x3d\x25\xa1\x70\x17\xb3\x3d\x58\x7b\x6c\xd6\x22\xae\x80\x4f\x40\xcc\x0c\x64\x7c\x6d\x9c\xc6\x87\x54\x31\x85\xc1\x18\x3b\x26\xae\x31\x46\x6a\x27\x28\x6f\x5a\xbe\xd3\xbe\x0c\x8f\xa7\xcd\x1c\xde\xbe\xc3\x02\xdb\xc4\xf0\xfa\x3a\x54\xb6\xda\x03\xf8\x2c\xe4\x62\xdc\x96\xcf\xde\x94\x66\x67\x11\xc2\x08\x3e\x7f\x48\x9e\x6c\xc7\xc0\xb5\x95\x22\xd8\x6f\x29\x4c\xe0\x67\xff\xf7\xcf\xff\x4c\xb3\x50\x4e\x4b\x1c\x93\xc0\x5f\xe8\x77\xd8\x35\x40\x34\x26\x30\x6d\xe6\x6f\x2f\xb0\xf1\x9d\x51\x73\x46\x56\x62\xb5\x88\xa2\xdb\x3c\x8e\xac\x74\x00\x5c\x94\x4a\xe0\x5e\x60\xf8\x0a\xf3\xb7\x35\x9a\x3b\x50\x56\xe5\x39\xf2\x95\x33\xe4\xb1\x63\x34\x42\xe0\x26\x39\x6b\xa0\x9a\x82\xdf\x97\xf4\x21\x7e\xd0\xe7\x42\xd1\x48\xc9\x50\x7f\xed\xb6\x5c\x60\x1d\x06\xaa\x17\x3e\xa3\x7c\xf9\x35\xce\x72\x61\x04\xe8\xaf\x8d\x38\xc7\x7d\x37\xbd\x88\x64\x62\xce\xf0\x5e\xc8\x92\x3a\x69\xa8\x04\xa9\xb7\xb9\xad\x9b\x21\x80\xa9\x2b\x1c\xf6\x1e\xcb\x31\x75\xda\xa9\x4e\x2e\x79\x93\x3a\x54\x15\x5a\x78\xf7\xc0\x4e\x85\x33\x85\x81\x95\xbd\x00\x7e\x16\xdf\x99\xe4\x96\x47\xe2\x65\x0b\x34\xf1\x64\x5e\x9c\x40\xb7\x1e\x6e\x99\xb6\x33\x0c\x8c\x6e\x8f\x15\x36\x9a\xb3\xd3\x01\x61\x90\x0a\x3b\xf1\xf3\xed\x08\xc3\x41\x9b\xc4\x8b\x49\x1d\x30\x4a\x5c\x50\x62\xaf\xf6\xdf\x76\x72\x15\xf6\xfd\x09\x12\x95\x47\xd5\x37\x79\x70\x0c\x0a\xbf\x73\xa3\x6b\x7c\xff\xd5\xce\x73\x4d\x38\x2d\xa5\xf1\x09\x1d\x9f\xaa\x2a\x33\x54\x47\x88\x95\x6d\x55\x90\x91\x83\x0f\xc5\xdf\x03\x2f\x44\xb1\x77\x59\xbd\x3e\x2f\x9c\x19\x05\xa3\xba\x0c\xfb\xbb\x41\x46\xe7\x94\x03\x4f\x51\x6a\xa7\x97\x18\xa8\x44\x01\xa4\x24\x06\xfa\xc2\xad\xfb\xbb\xb5\x56\x03\x19\x25\x37\x1a\x41\x78\xe0\x5d\xc2\xcd\x14\xe7\xbf\xa6\x24\x7b\x9a\xe7\xb1\x06\x7e\x5c\x01\xa3\xad\xd8\x9f\xa3\xc2\x1b\x41\x64\x24\x01\x47\x65\x6b\x0d\x1e\x5c\x99\x25\x67\x64\x24\xf5\x96\x20\xfa\x52\xad\x2d\x68\xac\x50\x43\xd7\xe8\x62\x02\xee\x86\x4a\x2b\xee\x8c\x9d\xa7\xba\x07\x4f\xf3\xbc\x7a\xb8\x26\x5c\x32\x92\x63\x54\x4d\xf2\xc6\x18\x85\xcf\x99\x98\x11\x9e\xbd\x29\xd5\x6d\xa2\x8b\xf6\x8d\xad\xec\xc0\xa5\x4f\xc0\x9f\x70\x47\xa4\x62\x6e\x71\x47\xa8\xf6\x8b\xd5\x61\xc1\xda\x2b\x5a\x0d\x1a\x1d\x62\xba\x03\xbb\xee\x21\xab\xa1\xde\x47\xc9\x5c\x4d\x90\xc0\x53\x88\xcf\x48\x66\xd8\xc1\xbc\x43\x04\x5a\xb4\x9c\xb7\x8e\x1e\xe5\x35\xe1\xa4\x10\xd6\x5d\xf9\x15\xe1\x22\xe6\xb8\x87\x78\x63\xa3\x7d\x8f\xbe\xfd\x87\x86\xf2\x55\xdb\x9d\xa7\x6f\x5e\x7f\x97\xfe\x12\x1b\x63\x3b\xc0\xeb\x12\xfa\x3e\x8c\x2e\x5a\xbd\x98\xb4\x5c\xab\x2e\x57\x18\x07\x46\x95\xc2\x94\xb6\x5b\xfa\x5d\xa5\x0d\x6b\x88\xd4\x22\x75\x1f\x8c\xb3\x2a\x28\xe9\xd7\xb4\x54\x93\xba\xdd\x44\xef\xa6\x13\xd4\x75\xbf\xf6\xa3\xf0\xaa\xa4\xd5\x7c\x07\x0f\xfa\x61\x17\x0f\xb5\xac\x1f\x83\x88\x3b\x56\x9f\x73\xfa\xa1\x4d\x58\x1b\xa7\x45\x45\x92\x6d\xd7\x36\x32\xd8\xe3\x10\xf5\x4a\xcc\xa1\x54\xa5\x96\x8f\xc2\x7a\x07\x4e\xaf\x13\xa1\xe4\xe7\xb6\x37\xa0\x7d\x23\x7e\x42\x1a\xb2\x07\xc1\x3e\xd9\xd7\x6b\x5b\x0f\x65\x26\x9d\x89\x34\x24\x28\x5e\xec\x88\x89\x6d\x21\xe1\x64\xc1\x1b\x41\xaf\x51\xc0\xa0\xbc\x14\xbe\xf8\x78\x23\xe8\x55\xd9\x14\x2f\x9b\x62\x4a\xb9\xb8\x68\x5f\x5c\x15\x4c\xbe\x29\xeb\xaa\x6e\xd0\x25\xce\x9c\x58\xd9\x84\x1d\x79\xda\xe2\x66\xd1\x71\x65\xe8\x69\xac\x50\x4d\x5f\x50\x21\xc8\x82\x26\xfb\x8a\x17\x2c\x1b\xbc\x1f\x19\x69\xe5\xcc\x49\x65\x49\x79\xbd\xfc\x4c\xaa\xab\x5a\x14\xc6\x18\xe8\x8b\xa1\xf4\xc7\x11\x77\xb4\xd0\x50\x4a\xb5\xb5\xdd\xad\x29\xae\x84\xdd\xbe\x24\x2a\x02\xde\x4d\xa0\x2e\x89\x80\x25\xc9\xf4\xd8\xa1\x94\xa9\x4a\xd4\x65\x58\x9c\xc9\x30\x2a\xdc\xf2\xb7\x7f\xad\x57\x2e\xa9\x86\xa2\x0d\x29\x91\x5a\xa5\xef\x32\xb5\xc8\xcc\x18\x6d\x75\x61\x45\x8b\x8e\x71\x42\xd1\x1b\x17\x95\x06\xd2\xcd\xcb\xee\xcd\xc8\xee\xcd\xb3\xde\x8d\x1c\x85\x3c\x4f\x65\xef\x90\x2d\xfc\x55\x4a\x76\x17\x06\xca\x67\x24\x77\x53\xd2\xf6\xfa\xd4\x6c\x89\xb2\x2c\x55\x6f\x48\x2e\x2a\x20\x59\x66\xce\xb0\x92\xf6\xd0\xf0\x3c\xdc\x9f\x18\x8e\x4c\xd7\x73\xbc\x64\x3c\x32\x42\xfc\x9a\xc8\x65\x72\x68\xa0\xdb\x15\x2c\xba\x47\x9e\x43\x21\x12\x25\x1f\x9d\x41\x46\x10\x26\x69\x62\xdb\x4e\xc8\x20\x7b\xa3\xdb\x10\x6b\x4f\x02\xb9\x04\xec\x69\xa4\x17\xe4\xec\x1e\xad\x56\x22\x0d\xd5\x8a\x4a\xaa\xf8\x02\x86\x0f\x48\x89\x77\xb4\xbe\xc7\x82\xfb\x5a\xdf\x06\xd3\x6d\x28\x27\x67\x55\x41\xf5\x25\x85\x76\x92\x8c\x89\x19\xde\xb1\x5f\x81\x58\x09\x49\x8b\x11\x08\x55\x05\x9e\xb3\x3b\x9a\xaf\x2c\xd3\x21\x1b\x41\xb4\xac\x84\xbc\x40\x8e\x8e\x8c\x00\xed\xac\x20\x76\x53\xd9\x42\xe2\xc1\xc8\xed\xe9\xf9\x65\x36\x87\x4f\x2c\xcb\x7d\x43\xc4\x35\xa7\x73\xf6\xe8\x66\x1c\x41\x84\xa7\x32\xd2\x1e\xb9\xc3\x63\xa2\x9b\x2f\xc6\xe3\x08\xfe\x8f\xa3\x04\x72\x65\xd0\x38\x29\xd8\xf0\x3c\xbd\x46\xeb\xc4\x41\x3b\xba\x52\x0b\x8d\x8b\x26\x34\xb7\x74\xd1\xb3\xec\xf1\x38\x4c\x7e\x55\x5f\x67\x88\x5e\x56\x7a\x23\xbd\xf0\xb6\x2e\xac\x57\x04\xd1\xc1\x20\x04\xf4\x50\xf1\xbb\x11\xe8\x90\x39\x18\x4d\x8f\x8e\x1f\xde\xb7\xe3\xda\xde\xd4\x6f\x19\x92\x30\x6a\xc3\xb6\xca\x5c\x38\xde\x17\x0a\xd6\x6b\xbc\xbd\xbb\xed\xfc\x18\xa4\xf1\xad\x8a\x00\x5a\x63\x03\x05\x2a\x2b\x33\xfa\xb8\x3b\xe2\x4b\x3b\xc6\x24\xf3\xb7\xbd\x8a\x7d\xb9\x7c\x34\x36\xd4\x7f\x83\x3d\xe3\x7a\x6e\xee\x7a\x09\x7d\x93\xab\x1f\x0c\x1b\x1b\x0b\x32\x98\x55\xf5\xea\xcd\xeb\xef\xe2\x66\x04\x7e\xff\x67\x44\x50\x14\x1f\x18\x3e\xb6\x5d\x5b\xeb\x60\x17\xab\xae\x5d\xda\x8d\x11\x1b\xca\xf4\xa4\xfd\x77\x72\xfa\xc1\x76\x5a\xdf\xda\xb6\xed\x6e\x76\x7e\xb7\x3f\x9d\xb8\xea\xcd\xf4\xef\xdd\x77\x38\xff\x53\xed\xfc\x50\x20\xdd\x54\x12\x6c\x13\xd1\xbe\x36\x25\x11\x7b\xd7\xeb\x55\x18\x28\xc9\x63\xf7\x71\x4a\x04\x85\x33\x3c\xc3\x6f\x5e\x7f\x37\x52\xc9\x25\xa3\x5a\x13\xd7\x8c\xe7\xb7\x44\xbb\xe0\x62\x02\x67\x38\x40\x3f\xaa\x44\x82\x71\x0f\x1c\x39\x3f\xc7\x37\x26\xc0\x70\x29\x1f\x6d\x6a\xf4\x06\xed\xdb\x99\x2a\x71\x6f\xb8\x09\xd5\x20\x3b\xda\x83\x2b\x2b\xa8\x9b\x3c\x57\xed\x46\xcf\xd1\x0c\x2d\x0c\x01\x55\x83\xaa\xdb\x9a\xaf\x46\x2d\xa9\xf0\x8e\x51\x7b\x85\x35\x61\x7d\x07\x14\x6d\x05\x13\xee\x48\x01\x5e\x56\xd2\x5c\xcf\x45\x90\x08\x4b\x49\x8a\x25\xb9\xa7\x60\x3f\xbb\xb1\xdf\x24\x51\xf3\x4c\x55\xb6\xca\xdc\x50\x53\x97\x71\x50\xf2\x5b\xd4\xf0\xb2\xb3\x89\xef\x13\x5b\x96\xa4\x6c\x0f\x5c\xd5\xca\x05\xaa\x5d\x6a\xcf\xbf\x3f\x47\xb9\x53\xb8\x26\xb5\xdc\xa5\x9d\x4e\x27\x7b\x37\x45\x86\xf5\x81\x1f\xf1\xe9\xe9\x64\x32\x6e\x7b\xee\x57\x1e\x61\x1d\xfe\x64\x09\x65\x67\xf1\x98\xc8\xaf\x9f\x47\x76\x3a\x43\xe7\x7d\x13\xe4\x2a\xa4\x35\x4a\x94\xa1\xf2\x98\x83\x02\x7b\x3b\x24\xd5\x2b\x6c\xf6\x46\xa4\xb6\xfd\x2b\x13\x8e\xd2\xd6\xd8\x76\x48\xca\x46\x69\xcc\x34\x76\xb4\x0e\xcf\xb4\xbe\xcf\x76\x48\xca\x34\xa3\xe3\xab\xcd\x3c\x93\x25\x71\x6f\xd0\xa0\x26\x2a\x1c\xf0\xff\xbe\xfc\xd2\x4f\x17\x8d\xe0\xc1\xe4\x44\x54\xc0\xb3\xe6\x14\x8d\x1c\xa2\xce\x03\x29\x15\x2c\x65\x14\x28\x46\x25\x52\xe2\x07\x14\xf0\xfc\xe8\x55\xf8\xe7\xcf\x04\xb0\xa1\xd0\x2e\x4c\x8b\xa3\x45\xe2\x60\xc8\xcc\x96\x87\xf4\x84\xcc\x7a\xc9\xbe\x3f\x62\xa6\x27\x3d\x3d\x64\x76\x4a\x04\x6c\x82\x5d\xd2\xab\x57\x5f\x0d\x06\xc1\x30\x8a\xdd\xc6\xc6\x91\x31\x14\x09\x00\xe9\xb8\xf2\xa3\x5e\x5b\xe6\x4f\x1f\x2c\x0c\xa8\xf5\xc4\xd3\x1c\x50\x03\x4e\xc3\xe3\x5e\x2e\x02\x3e\xe9\x24\x3e\x5e\xfd\x62\xef\x14\xf3\x78\x3b\x13\x91\x8c\x20\xf2\x78\xe6\x02\xbe\xf8\x2c\xfb\x22\x1a\x75\xe6\x70\x73\xa3\x39\x82\x0b\x3e\xc4\xcd\xe1\xc9\x71\xbd\xc1\xb0\xde\x50\x54\x6f\x13\x1e\x1f\xd3\x13\x75\xf2\xe4\xf0\x26\xf8\x44\xb1\x0b\x36\x9d\x3e\x6f\x2b\x99\x83\x6e\x5c\xc6\x17\x40\x57\xe5\x89\x02\xc8\xf5\xf4\x0c\x83\x1d\x93\xe0\xdc\x88\xaa\x23\x4c\xa8\xbd\xb1\x20\x17\x3d\x0f\x9d\xb7\x6b\xc2\x41\x40\x8e\x0f\x98\xab\x4f\x49\xe0\xc9\xbf\x27\x9c\x55\x8d\x00\x54\x27\x68\x85\xa1\x5e\x0e\xc6\xe3\x5d\xe5\x1b\xa3\x1d\x31\x02\x15\x30\xd3\x39\x6d\x3c\x24\x89\x15\x05\x47\x2c\x6b\xbf\x2c\x50\x5d\x06\x4a\xc8\x5c\xe8\x08\xbf\x07\x75\x4f\x72\xdc\x8b\x28\x32\x91\x49\xdd\xb4\xff\x53\x00\x5b\xc4\x30\xb3\x69\x26\xb7\x11\x4e\x4e\x3f\x84\xe1\x96\xfa\x1a\x74\x8d\xb7\xfb\x0d\xfb\xde\x3a\x2a\x71\xa3\x64\x36\xde\x97\x97\x4b\x0c\xfc\x92\x82\x4a\x4c\xdb\xe0\xa5\x6e\xb9\x44\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xeb\xc6\xa3\xa0\x2a\x3c\xd4\x89\x75\xe2\x2c\x37\xba\xdd\x05\x3b\x6d\xc7\xcd\xf6\x05\x51\x34\x19\xa3\xb1\xc2\xbf\xcf\xdb\x43\x5c\xf6\x27\x0f\xb6\x65\x10\xca\xb9\xaa\xc9\xb3\xf2\x0b\xd9\x9e\x5e\xbd\xca\xcf\x3e\x44\xda\xf8\xb4\x12\x54\x53\xe5\x35\x79\x30\x46\x66\x63\x7f\xbb\x77\xee\x05\xfe\xd8\xa2\x9c\x62\xbc\x2e\xe9\x54\xc1\x45\x6f\xc4\x1a\x05\x9c\x2c\x6a\x93\x9e\x35\x1b\x2c\x8b\xba\x4b\xce\xa1\xd8\x35\x58\x3a\x9e\xc3\x71\x61\x63\x36\x57\x07\xc2\x74\x7b\x4d\x6b\x8a\x31\x46\x3b\xec\x5b\xf1\x8c\x78\x12\xb5\x85\x1c\x5f\xda\x0f\xea\x99\x9e\x5f\x57\xd8\x0b\x22\xbb\xfd\x51\x62\x47\xe8\xa5\xbe\x8d\x5c\x88\xfa\x97\x2e\x1e\x6f\xea\xb0\xdf\x69\x16\x4e\x5d\x8f\x4b\x52\x50\x53\xb8\xdd\xce\x4a\x73\xe1\x9e\x8d\xc1\xe7\x5d\xb1\x18\x1a\x6f\xf3\x21\x06\x8d\xf4\x69\x96\xc5\x7b\x50\x19\x79\x5f\xa1\x8a\xef\x31\xe6\xd5\xe6\x4d\x3a\xdc\x88\x38\x21\x46\x48\x8c\x8a\x43\x8c\xfa\x72\x87\x68\xc9\x36\x5d\x2d\xfe\x8a\xee\xe6\xdd\x8d\x24\xfc\xea\xb1\xe6\x9b\x0d\x9b\x0f\x92\xc1\x31\x34\xb4\x9e\x55\x10\x04\xb2\x30\x17\xd8\xb6\xea\x40\x86\xc0\x98\xf5\xf4\x1c\x92\xde\x73\x62\x8e\xc9\x9c\xb0\x5c\x17\xea\xd8\x53\x32\x04\x3f\xea\x12\xcc\x88\x3c\x2b\x21\x62\x59\xd4\x49\x78\xd2\x6e\x68\x08\xc9\x3e\xaa\xc1\xa6\x43\x13\xbd\x2d\x96\x40\xeb\xf5\xf8\xec\x0f\xff\xf2\xd7\x3f\xfc\xfe\x9f\x7e\xf8\xc7\x7f\xfd\xe1\xef\x7e\xf7\xc7\x7f\xf8\x9b\xff\xf8\xb7\x7f\xff\xc3\xef\xff\xf6\x87\x7f\xfe\xdd\x1f\x7f\xf7\xf7\x67\x63\x38\xdf\xbf\x27\x8e\x60\x43\x4b\x86\x4f\x26\x3e\x11\x3f\x82\xcd\xce\x86\x40\xef\xb0\x9f\xbf\xb2\x8f\x98\xe8\xd0\x3c\x5d\x32\xb6\x75\x83\x5b\x4f\xe6\x61\xb3\xe9\x8a\xa4\x0a\x33\x57\x43\xb9\xac\x5d\xb9\xa4\xba\x0f\xcb\xa5\x16\x6c\xed\xf4\x86\x1e\x62\x6c\x36\xe8\xec\x9b\x3b\x82\x95\x7a\xdb\x3d\x83\xa6\x6d\xfb\x10\xa2\x1d\x6b\x34\x32\x52\xe6\x6b\x2a\xd7\x6b\xdb\xd7\x5c\x45\x4d\x9e\xa8\x1e\x9f\x4c\xa0\x7d\xf5\x97\x94\x57\xca\x19\xf6\x84\xcb\xde\x83\xd8\x0b\xd8\x90\x7c\xe8\x2c\x9e\x7c\x1a\x7b\x27\xb1\xc7\xd1\xb1\xd0\xbe\x23\xb9\xc3\x52\x06\xd8\xa1\x53\xd9\xcf\x9e\x3f\x25\x71\x8f\xc6\xcb\xe3\x75\xc4\x6f\x07\x41\x9f\xa5\xb7\x1e\x3b\x4f\xe6\x41\x45\x5f\x5b\xdd\xaf\x26\x84\x09\x18\x74\xb4\xd9\x18\x2b\x33\xc9\xf0\x75\xe9\xd9\x6b\x2a\x66\x19\x2d\xa8\xd4\xdf\x4a\xf4\xed\x01\xb4\x3e\xbb\xe6\x80\xac\x5e\x53\xf9\xb1\x16\xe0\x31\x66\xc1\xf9\x81\x64\x72\x37\xa9\x3d\x3e\x83\x57\x65\xbe\x52\xdf\x5d\x42\x84\x55\x6f\x61\x92\x5a\x62\x89\x56\x13\x4c\x5d\xc4\x08\xc7\x62\x9e\x01\x6f\x25\x2a\xca\x56\x72\xe9\x17\x7a\x56\x05\x93\x68\x53\x64\x8d\xfa\x38\x0c\xfa\xa6\xac\xa4\x42\xc0\xd9\xd8\xcc\xa8\x96\xdf\x2b\x9a\x0e\x58\x06\xad\xc4\xea\xec\x9f\x39\x18\xdb\x6e\xdf\x8b\xc3\x4e\x5f\xeb\xf5\x0d\xe6\x69\x87\x13\xb5\x83\x99\x5a\x75\x44\xf0\x9e\x84\x33\x5c\x1d\x86\xbe\xa4\xf8\x78\xfb\x55\xbb\x51\xca\x4d\xc7\xd0\x0a\x8a\x20\xf8\xec\x3e\x1a\x81\xa2\x6c\x6b\xc5\x3e\xc3\x0e\x2e\xf0\xe0\xbe\x8b\x19\x63\x25\xa0\xc0\xb2\xf0\x67\xcd\x7c\x4e\x79\x8c\xb8\xfa\xc5\xcc\xe0\x97\x0b\x18\x1f\x34\xd8\xfd\x58\xd8\xc1\xcf\x87\xb8\x6f\x87\x1e\x9b\x8f\x7b\xf9\xf4\xf6\xe6\x63\xee\x4a\xd8\x82\x32\x1c\x0f\x3a\x86\xe9\x9e\xcd\xfd\x49\xc4\x05\x11\x2d\x47\x20\xf8\xbd\x7e\x76\xdf\x82\x33\x5e\xdb\xee\x67\xe8\x8e\xbd\x03\xd9\x77\x9b\xf1\xa6\x99\x3a\x06\x40\x1c\x50\x5d\x37\xf4\xa6\x99\x8a\x19\x67\x53\x1a\x6f\xdd\x5e\xd4\x83\xfc\x2f\x62\xa0\x27\xd7\xd7\x07\x45\x32\xbf\xf7\x7b\x2a\x20\xf4\x85\x58\xa8\xc5\x26\x07\x39\xcb\x70\x08\x3a\x93\xfd\x88\x7b\xb7\x03\x3d\x36\x58\xaf\x3b\x9f\x93\x20\x77\xd4\xdb\xb0\x63\x3f\xd8\x82\x43\x8e\xf8\x60\x4b\x0b\xf9\xe0\xc5\x92\xce\x87\x69\x53\x47\x60\x53\xae\x9f\xf8\x7b\x3d\xf0\xa1\x96\xfd\x10\x4c\xd9\xc1\x7f\xbf\xef\xb5\xb4\xeb\x3a\x78\x53\xd4\x30\xa9\xdb\xe3\x0b\xe8\xae\x19\xef\x57\xb8\x65\x9f\xf4\x91\x16\xdc\x28\xaf\x87\xd1\x57\x23\x73\xcf\xfc\xaa\xec\xed\xe3\xe5\xd5\xda\x1e\x5b\x75\x3c\xa7\x7e\xc5\xc5\xdb\x65\xaf\x94\xff\xf4\xaf\xb8\x78\x70\x5c\x51\xf0\x61\xe2\x7a\xcb\x03\x80\xb3\x2e\x75\x5b\xd2\xee\x7c\x94\xc5\xcc\xb4\x9d\x4b\x18\x9a\xc7\x8b\x66\x23\xc9\xd6\xeb\x2e\xd9\xfb\xb3\x2a\x85\x58\x18\x01\xf8\x42\x2c\x86\x83\xd8\xbb\xf5\x9d\x7d\xd7\x1b\xf7\x54\x89\x17\x62\x91\x3e\x57\x7a\xaf\xbf\xae\xb1\x2f\x0d\x6f\x79\x79\xe0\xae\xa4\x21\x8f\x89\x74\xb6\x85\x69\x3d\xfc\xb2\x1d\x8c\x54\x0b\x3e\xa2\x30\x0d\x03\x65\x50\x4d\x7f\x83\x05\x17\x26\xd6\x28\xdc\x7e\xd9\xef\x62\xbc\x20\xe5\x4a\xe7\x57\x30\xeb\x66\x0b\x30\xf4\x47\xf5\x1a\x8c\x0b\x60\x92\x03\xd1\x43\x01\x58\x0a\x86\x29\x36\x73\x7b\xc7\x08\xb5\x41\xbc\x07\x32\x61\x38\xaf\x31\xdb\x47\x50\xce\x3a\x1a\xcc\xe5\x00\xfa\x83\x8f\x96\xce\x1d\x1e\xd4\xf3\xe3\x12\xfc\x89\xcd\x44\x38\x43\x0b\x36\x39\xa5\x86\x06\x57\x64\xe2\xd1\xb6\xed\x84\x1a\x1a\x6f\xf4\x81\xaf\x30\xe0\xf2\xff\xab\xbf\xc2\xd0\x62\xb7\x6b\x45\x0c\x2a\xa0\xeb\x66\x9a\x33\xb1\xa4\xfc\x94\x12\x99\xfe\x4f\x30\x1c\x6b\x7d\x7c\xcc\x37\x18\x6c\xd9\xc6\xbe\x61\x93\x2d\x1e\x7a\x49\x1f\xdc\xea\x4c\xe5\x86\xfb\x18\x43\x10\x1c\x61\xd0\x84\x5e\x71\x46\xe7\x28\xf8\x15\x19\xcf\xe9\x21\x9d\xb1\x5b\x8a\xb1\x5d\x89\xd1\xa9\x7c\x75\x02\xc5\x9e\x8c\xde\xba\x8b\x5e\x91\x6b\x5c\x29\x0f\x91\xad\xba\x88\xd3\xbf\xb0\x80\x0b\x1b\x4a\x21\x0f\x89\x7d\x97\x39\x1e\xa0\x4a\xaf\xec\x3b\xee\x0b\x0b\x56\x2f\xfc\xc9\xbe\xa5\x30\x80\xf2\x11\xaa\x0a\x86\x75\x15\x16\xcc\x1d\xa1\x86\x28\xe7\x76\xbe\x1d\x75\x34\x1e\xc3\xae\x46\x1a\x8f\x61\xe3\x41\xb7\x83\x53\x55\x35\x6f\x07\x7f\xfe\xf9\xee\xbb\x14\xf3\x96\xea\x3b\x8e\xef\x99\xb9\x0b\xf6\x3e\x1a\x98\xc6\xe6\x72\x77\x81\xd8\x92\x5d\x8b\x48\x4f\xfe\xb3\xf7\x0b\x11\xc7\x2a\xe5\xbe\xc4\xe4\x7e\xad\xdc\xff\x41\x25\x9f\x87\x8d\x6e\xee\x57\xcd\x26\x47\xb6\x47\x33\x77\x2f\xd9\xb8\xff\xb7\x1b\x53\xa7\x63\x22\x24\xca\x75\x18\x50\xd6\xb8\xd5\x56\xd2\xbf\x10\x8b\x6d\x5d\x7d\xae\x70\xfd\x69\x14\xf6\xb1\x36\xd6\xa1\xec\xa0\x25\xf9\xa0\x82\x76\x13\xa9\x13\xe1\xc0\x25\xde\x36\xfc\xe7\x00\x28\xa3\xdc\x04\x9d\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\xa2\xc8\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x2f\xe0\x39\x91\xd4\x7f\x8b\xcf\x9b\x4d\x18\xd6\x64\x76\x47\x16\x14\xdf\x5c\xeb\x9f\x2f\x49\xa1\xde\x8c\xc7\x70\x6b\xe7\x80\x59\x55\x4a\xc2\x4a\x01\x05\x95\xcb\x2a\x13\x20\x2b\x28\xc8\x1d\x05\x56\x66\xec\x9e\x65\x0d\xc9\x81\x96\x59\x5d\xb1\x52\x0a\x98\xf3\xaa\x00\x41\xf9\x3d\x9b\x51\x31\x42\x34\x38\xfd\xd0\x50\x21\x81\x94\x19\x70\x2a\xea\xaa\x14\x14\xe4\xaa\xa6\x0a\x12\x76\xc5\x15\x55\x82\xb6\x50\x46\x40\x04\x3c\xd0\x3c\xc7\xbf\xb4\x9c\x55\x19\xe5\x02\x01\x20\xbc\x8c\x9a\xe7\x79\xc5\xcd\x40\x05\x6d\xa4\x1a\x08\x52\x6a\x0e\x55\xc3\x41\x34\x75\x5d\x71\xa4\xb4\xe4\xa4\x14\xf8\x1b\x31\x63\x24\x67\xbf\x25\x92\x55\x25\x42\x9b\x57\xbc\x20\x52\xa4\x61\xc8\x0a\xd5\x23\x0e\x83\x68\xba\x92\x54\x44\x61\x10\xe1\xda\xe9\xa3\xc4\x9f\x0a\x0d\x56\x2e\xc6\xbf\x11\x55\x89\x0d\xf3\x42\xb5\xb3\x4a\xff\x77\xcc\xaa\x46\xb2\x1c\x1f\x4a\x2a\xc7\x4b\x29\x6b\xfb\xbb\xe1\xaa\x59\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x4e\xdb\x33\x91\xe3\x3c\xd5\x62\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x0e\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\x7b\xe2\x07\xce\x97\xeb\x60\xd1\xf1\xe6\xc2\xb3\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\x25\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x48\x9f\xf4\xa9\xac\x98\x6e\xe9\x2c\x33\x7d\x49\x1f\x6e\x28\xbf\xa7\x5c\xbf\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x33\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xf6\xd3\xb2\xa1\x96\xf1\xd8\x55\x89\xa4\xf4\x69\xa9\xc6\xb5\x42\x26\x7d\x6e\x7e\x62\xb3\x11\x1f\xe9\x15\xfe\xc5\x06\x7b\xa4\xd3\x1b\xf5\x03\x9b\xbc\x63\x9a\xde\xda\xdf\xf8\xa2\x3d\x7e\xd8\x9b\x95\x8b\x5f\x91\xbc\x51\xeb\xf6\xe4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x75\x12\xd8\xa6\xc3\xff\xc6\x4a\x83\x7e\x5b\x02\x41\x7d\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x9a\x9a\x37\xe5\x0c\xa9\x20\x40\x2e\x89\x84\x92\xa2\x96\xaa\xa0\xaa\x95\x6d\x00\x15\x8e\xad\x29\x3f\xb7\x6a\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x55\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\xe2\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa6\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x95\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\xa8\xee\x29\x20\xb3\xb1\x19\x75\x56\x85\x42\x91\x22\x9c\x76\x05\x9a\x07\x80\xb5\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe5\x8c\x96\xb2\x4b\x5d\x59\xc1\xac\xca\x73\x3a\x93\x9e\x81\x92\xaf\x60\x56\x95\x1a\x1c\xcd\x3c\x73\x85\x95\xb8\x20\x04\x28\x58\xb9\xc8\xb5\x61\xa2\x69\xc5\x90\xc2\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x93\x19\x1d\xda\x09\x04\xe6\x26\xeb\x37\x92\x1a\x9c\xac\xb5\x4a\x94\xb1\x80\x07\xf0\xd2\xac\x67\x56\x15\x53\x56\x2a\x3a\x15\x06\x45\x6f\x63\x47\xc6\x94\x92\x0d\x2f\x81\x49\xa4\x2b\x22\x38\x23\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x3b\x04\x5d\x87\xc1\x9b\xd2\xad\x8f\x66\xeb\x75\x6a\x47\x68\x13\xd0\x48\x82\xf5\x9a\x93\x72\x41\xe1\x53\x06\x17\x13\x70\x7d\x5e\xe8\x2d\x43\x39\xb6\x5e\x7f\xca\xcc\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\xb5\x70\xd5\xd6\xa5\x6d\x16\x87\xa7\x40\x06\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x4c\x3e\x82\xb1\xd2\x50\x35\xe0\xdf\x11\x32\xcc\xd9\x7a\xfd\x75\x85\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xdb\x55\x6d\x17\x98\x40\xbc\xd5\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc3\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\x13\x28\x59\x8e\x10\x02\xb3\x5f\x25\xcb\x15\x90\x30\xd8\x84\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xbd\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\x76\xb7\x0d\xf7\xcd\xb6\xde\xeb\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\xa7\x79\x7e\xf5\x38\xa3\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x2f\x58\x96\xe5\xf4\x81\x70\xed\x05\xbe\x11\xd6\x2f\x44\x27\xa8\xae\xf3\x15\x8a\x18\x14\x9b\x12\x81\x17\xae\xb7\xf2\xba\xe8\x3d\xe5\x2b\xb7\x6d\x78\x5e\x50\x82\x18\xb7\x4d\xc1\x7b\x55\xa3\xd6\x20\x79\xbe\x1a\xb9\x7e\x02\x66\xa4\x84\x29\x55\xba\x86\x66\x38\x6c\xba\x82\x12\xc9\x2e\x2b\x6c\xa7\x8f\xb3\xbc\xc9\x68\xa6\xbd\xc0\x29\x45\x14\x70\xcd\x35\xcd\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x6e\x24\x91\x8d\x88\x46\x10\x5d\xb3\x72\x11\x25\xee\xdc\x9f\x39\x82\x24\x83\xe3\x1d\x86\x1e\x55\x46\x2d\x36\x69\x9a\x0a\x65\x16\x28\xe6\x61\xa5\x69\xbe\x98\x40\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xf5\x06\xd9\x6b\xfb\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\x58\x6f\x46\x61\xe0\x9b\x91\x9b\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x1c\xde\x8f\xa0\xba\xc3\xd7\x16\xb1\xb7\xf4\xf1\xdd\x13\xf8\xa4\xba\x43\x6c\x83\xa0\x26\x25\x9b\xc5\xad\x85\x37\x8f\xa3\x2b\x0b\xc2\xae\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe3\x9d\x4f\xa9\x4c\x7a\x44\x2a\x49\x0c\x3f\x67\x34\xa7\x92\xc6\x16\x03\xf5\xae\x5d\x00\x2b\x67\x2d\xfa\xb6\x8f\x42\x0e\xcd\x40\x56\xce\x8e\x26\x19\x9b\x2b\x60\x93\x09\x74\x88\xa7\x60\x05\x41\xaf\x50\x85\x89\xb7\x86\xb8\xb7\x0b\xae\x22\xd8\x6c\x13\x5f\x1f\xc0\xef\xc8\x94\xe6\x34\x6b\xf9\x42\x07\x53\x16\x54\x5a\x2e\x46\xce\x77\x74\x54\xcc\xfc\xb0\xa4\xa5\x7b\x5b\x79\x8c\x6b\x80\x69\xfe\x1b\xe9\xf3\x66\x8e\x44\xa3\x3b\x83\x8e\xd0\x10\x1d\xe6\x61\x33\x34\x6f\x38\x9b\x29\x83\xab\x5d\x06\x3c\x2c\xd9\x6c\xa9\x4e\x93\xa0\x65\x1f\x0a\x46\xa7\x9b\xd1\xd6\xa2\xa9\xb8\xd1\xe8\xbb\xab\xc2\xe3\x12\x6b\x56\x1e\xed\xca\xe3\x1e\x11\x1d\x0e\xad\xeb\xa3\xa5\xd4\x0e\x52\x23\xb3\x4e\x45\x71\x4e\x67\x94\xdd\xa3\x90\xa2\x7a\x89\xd5\xbc\xb3\xee\x14\x6e\x28\x75\x60\x3c\x28\xea\x85\x35\x49\x0d\xc2\x57\x8f\x88\x28\xf2\x66\x46\x25\x61\xb9\x40\x8b\xd9\x1e\x2c\x04\x62\xcd\x5e\x92\x33\xb9\x4a\xf7\x09\x93\xce\xda\xe3\xe2\x47\x50\xf4\x7f\x25\xce\xff\x44\x89\xd3\x19\x36\x82\x93\x04\xd0\xf1\x41\x8b\x63\xdd\xd1\xaf\x5f\x5f\x5f\xe2\x3a\x29\x3f\xd9\x1f\x45\xd3\xce\x1b\x8e\x21\x5c\xd1\x1a\x08\x6e\xa7\x80\xdc\x13\x96\x93\x69\x4e\xb5\x2b\xb1\x78\x7d\x7d\x09\x03\x0e\x82\x39\x58\x5d\xc8\xce\x6b\x14\xad\x94\x18\x41\xa5\xec\x09\x81\x27\xa3\x13\x9f\x51\x8c\x4e\xb9\x36\x37\x92\xa1\x89\x70\xbb\x84\xd7\x51\x20\x77\xbc\x7d\x37\x0c\x09\xf9\xb8\xef\xed\x33\x3a\xaf\x38\x8d\x11\xdb\x17\x26\xce\x74\x5b\x19\x8b\x34\x19\xe1\xae\x6d\xcd\x33\x41\x63\x8a\x96\x59\xdc\x69\x76\xeb\x49\xd3\x34\x51\xc1\x8f\xf5\x1a\x6e\xab\xef\xaa\x07\xca\x5b\x46\x44\x52\xe1\xe6\x5a\x73\xf1\x73\xc4\x08\x5f\x52\xbe\x46\xd7\xe9\x20\xf7\xae\xd7\x16\xa6\x63\x39\xe3\xad\x5f\x40\x77\x75\x2e\x7a\x13\x23\x5f\xbb\x1d\xe8\x63\x56\xb4\x52\x82\xe7\x2a\x88\x8e\x64\xf0\x7a\x18\xc3\x59\x75\xb8\x2a\x7b\x3b\x18\x37\x08\x7b\x74\x08\x92\xa6\x29\x0e\x43\x12\x6e\x9d\x01\x94\xc6\xed\xba\xb7\xbd\x6a\x67\xb7\xf7\x6f\xbb\xf3\x01\xb4\xda\xf3\xe0\xfc\x09\x3c\xd9\x21\x5a\x03\x6c\x11\xdb\xb4\x7b\x26\xbf\x71\xc4\x4c\x28\x03\x45\xb0\x87\xaa\xac\xda\x55\x1f\xbf\xe0\x83\x18\xab\xa3\x17\x0b\x38\x6b\xa7\x4a\x5a\xf0\x07\x3c\x64\x74\xa0\x7e\x5a\x17\xf9\x3d\x7a\x51\x75\xc7\xc9\x1a\x22\xa8\x5a\x8c\xe2\x2d\xdf\xfb\x3a\xd1\x65\xae\x3f\xd2\x5b\x36\x84\xd6\x07\xe0\x30\x95\xc7\x63\xd8\x77\x56\x80\xa1\x8c\x74\xac\xa1\x82\xc9\xa9\x1e\x60\x7a\x7c\x85\xdb\xa4\x02\x4a\x98\xfc\xa1\x5c\x0a\x1d\x6f\x32\x72\x75\x87\x46\xce\x2d\xc6\xa8\x0f\x06\xb5\xf8\x79\x56\x15\x84\x95\xfb\x3a\xa7\x70\xcd\x59\x41\x38\xcb\x57\x36\x0e\xe6\x07\xcd\xb4\x98\xde\xb7\x8e\xf8\xfd\x2e\x8f\xe0\x5a\x5e\xd3\x0f\x2d\x4f\x2a\xff\xdc\x7b\xea\x46\x48\x94\x47\x6e\xc6\x1c\xe3\x91\xbb\x9d\xfc\xb0\x67\x9b\xae\xca\xa3\xb7\x69\xaf\xc4\xea\xdd\x27\x3d\xc2\x76\x19\xda\xa8\xc3\x5b\x60\xa6\x50\x1b\xb6\x67\x5b\xeb\x7c\x75\xd4\x3e\xed\x5d\x48\xdf\x46\xf5\x85\x4c\xf6\xed\x94\xa8\x71\xab\xec\xa8\x23\xce\x91\xb7\x59\xa2\xee\xdb\xad\x6f\x68\x8e\xf1\xf7\x50\x33\x5a\xaf\x76\xed\x97\x43\x45\x06\x36\xdf\x93\xbe\x78\x9e\x6c\x77\x40\x7c\x51\x9a\xde\x8d\xe0\xbe\x35\x08\x0b\x67\xc9\xde\x77\x62\x35\x2a\x6d\x4d\xe1\x8e\xae\xd4\x76\x67\x68\xf2\x4e\x2b\xb9\x44\x1a\xdb\x59\x4c\xc2\x17\xe2\xbb\xc4\x78\x27\xd8\x35\xcf\x21\xc7\xfd\x32\x50\x88\xf1\xc9\x54\x5c\xf6\x92\x94\x55\xc9\x66\x24\xff\x86\x92\x8c\xf2\x5f\xd0\x95\x75\x5d\x70\x22\x51\x99\x68\xb1\x34\x9e\xa0\x05\x31\x9b\x51\x1b\x24\xa1\x4c\x2e\x29\x37\x33\xe3\x7b\x24\xc5\xc4\xad\xf5\x7b\x26\x97\x2a\x61\x81\x24\x1a\xa9\xb5\xbe\xfd\xf2\x5d\x72\xb0\xe3\x00\x76\xf1\x5d\xd2\x42\x30\x4e\x81\xd9\xbe\x99\x7c\x54\x1a\xd9\x1a\x86\xfb\xff\xa9\x7d\xd4\x21\xe9\x93\x8d\xcd\x97\xf4\xc1\x1b\xad\xa7\x57\xe9\x09\x13\x63\x82\x29\x99\xdd\xe1\xf6\xac\xec\x99\xd1\xb1\x7c\x5c\x6b\x49\x55\x6a\x24\x85\x6f\x25\xee\xa3\xc9\x0a\x18\x76\x65\x53\x86\x2e\x9d\xdd\x02\x13\xf4\x96\x15\x64\x8c\xe4\x3a\x32\x9e\x13\x49\x39\xcc\x30\x6d\x85\x3e\x3a\xf5\x61\x6a\x06\xed\x60\x17\xe3\x6b\xad\x45\x53\x8d\xef\x65\x55\x96\x7b\x2c\x56\xdd\xc9\x5a\xac\xf1\x80\xc9\xea\x1f\x39\x34\x14\xb6\x83\xb2\xc1\xae\x07\xe3\x07\x58\x5b\xd1\x16\xdc\x13\xde\x27\x51\xac\x3d\xb7\xeb\x88\x86\xc1\xba\xdf\x78\x74\x43\x26\xbb\xe6\xa3\x21\x86\xe2\x3a\x5c\xbf\xf5\x37\x3d\x9c\xbe\x6a\xf2\xdc\x3a\x42\xad\x3b\x7a\xfd\xcc\x6f\xbb\x2a\x0f\x18\x96\xcf\xe9\x21\xc3\xf2\x80\x34\xd2\x71\xb6\xa0\x35\xc0\xf1\x31\x71\x8b\x8f\x95\x1b\xa9\xa8\x6b\xac\x50\x27\xa8\xac\x14\xb3\x5d\xc5\x41\x2b\x1c\xce\x8d\x1d\xee\x30\xb5\x63\x2f\x30\xcd\xb1\x87\xc4\xa3\x76\xde\x60\x63\x45\x26\x8a\x4a\x5c\x39\x98\x73\xf1\xe3\x8d\x90\x3d\xda\xed\x39\x3d\x46\xbb\xed\xd7\x57\xc7\x1a\x21\x46\x93\x0c\x68\x37\x7d\xb4\xcd\xd9\x7b\x4e\x4f\xd4\x6e\xb8\x98\xd7\x0a\x99\x23\xd5\x1b\x76\x75\xa6\x08\x2a\xdd\x93\x14\x5c\x9d\xaf\xfa\x34\x9c\xbf\x6d\x3f\xde\x28\x19\xb6\x1d\xaf\xca\x23\x6c\xc7\xc3\x1b\xe2\x99\x90\x7b\x76\x78\xaf\xed\xd8\xd9\xb5\x7d\xeb\xe8\x37\x49\xcc\x12\x8f\xdb\xb2\x53\xb3\x39\xfb\x6d\x47\x83\x85\xd2\xa9\xe2\xb6\xf2\xcd\x11\x7d\x52\xfa\xe4\xb9\x99\x07\xcf\x89\x66\xd4\x3d\x50\xe2\x3b\xba\x12\xf0\xf6\x9d\x8d\xf1\x1d\x80\x77\x54\x36\xac\xc8\xe0\xec\x90\x29\xa4\x54\x41\x4d\x18\x6f\x27\x0f\x03\x1b\xf1\xbb\x6b\x0d\x24\x85\xde\xda\x84\xbf\xee\x6d\xb4\x6f\x26\x1f\x53\x45\x93\xf8\x2e\x49\x4d\x64\x33\x79\x02\x36\xea\x17\x68\xc0\x2e\xe0\xa1\x1e\xb5\x39\xe2\xe2\x5b\x28\x44\x11\xa6\x7a\xd7\xb1\xbd\xce\x8a\x0c\xe3\x66\x76\x01\x3f\xaf\x58\x19\x9f\x15\xd9\xa8\x6d\xba\xc6\x31\xb1\x1a\x89\x51\x93\xc4\x82\x33\x94\x41\xdb\xc4\x04\xcd\xf4\x4e\x1e\x1b\x12\xfb\xe6\xf6\xf6\xda\x78\x0b\xb6\xed\xf0\xbf\x71\x18\xaa\x1c\xbd\xa6\x72\xa9\xd8\x0b\x26\x10\x91\xba\xce\xd9\x4c\x55\xa5\xa8\x42\xbf\x27\x30\x5b\x12\x2e\xa8\x9c\x34\x72\x7e\xfe\xb3\xc8\x45\xd2\x70\x56\xe3\xce\x9a\x54\x3c\x32\xd6\xd2\xb4\xa8\x33\x7b\x38\xc2\x86\xc0\xaa\x12\x6a\x4e\x33\x3a\x67\x25\xcd\x54\x41\x85\x30\x67\x6e\x6b\x9a\x83\x71\xb5\x6e\x3d\x4f\x37\xae\xe6\x57\x7a\x58\x8b\x84\xcd\x21\x55\xf0\x95\xf1\xee\xc9\xad\xad\xd8\x0e\xf2\xce\xdb\x77\xc3\xd0\xd5\xfe\xf7\xbd\x36\xc1\x36\x3d\x07\x5a\xa7\xa2\x13\x6b\xeb\x1f\x74\x85\x92\x5c\x8b\x1b\x1e\x53\xef\x61\x78\xc8\xd3\xb9\xa4\x3c\xde\x7e\x23\x2f\xdb\xad\x8d\xbd\x6d\x4e\x14\xa0\xdd\x55\x1e\x15\xe9\x33\x21\x1f\x15\xd5\x2b\x90\x30\x45\xf3\x88\xd6\xd3\xeb\xaa\x41\x1c\x92\xd0\xb3\x28\x4c\xca\xe2\x62\x32\x48\x66\xd7\x75\x8a\x65\x22\xe5\x02\x01\x9a\x61\xe9\x33\xdd\x64\xc2\xd8\x85\x1d\x17\xa3\xd1\x65\xba\x63\x41\xef\x14\xfe\x0a\x6e\xab\x37\x58\xb0\xb8\xd9\x44\x49\x7a\x4d\xe4\xb2\xd3\x07\x1b\x6e\x69\x51\xa3\x55\xac\x7a\x58\x76\x1a\x28\xff\x52\x01\xc4\x6e\x04\xd1\x60\xb4\x63\xe0\x38\x6b\x0e\x97\xe7\x4d\xa9\x52\x2a\x4e\x3d\xe8\x8e\x7a\x47\xb1\xe3\xd7\x3a\x33\x66\xd5\xb0\x7e\xdd\x17\x4c\x0c\x54\xb2\xa0\x0d\xb2\xf9\x3f\x8d\xd0\x28\x8c\x51\xe5\x33\x8d\x4e\xc1\x29\xbf\x41\x9b\x05\x36\x99\x66\x67\xfc\x1e\xdf\xf3\x11\xfa\x1e\x19\x9d\x93\x26\x97\xa8\xed\x34\x83\xe0\x89\x54\xa1\xc6\x6a\x0e\xdb\xb2\x60\x04\x04\xa6\x55\xa6\xdc\x3f\x94\x0d\x3a\xf5\x85\x4e\x60\xa4\xe6\x89\x9c\xdf\x78\x8f\x52\x16\x41\xa9\xf6\x54\x61\x17\x27\xda\x3b\x21\x20\x54\xaa\x1b\x90\x1e\x08\xea\xff\x7f\xf9\x65\x0a\xdf\x9a\x64\x18\xf6\xf4\x63\xa4\xfa\xdc\x50\xae\x2a\xa9\xb1\x47\xcd\xab\x7b\x86\x8e\xed\x52\xbd\xc1\x2a\x81\x3c\xc7\xdc\xbb\xc2\x56\xe7\x20\xb1\x5f\x6b\x93\xf9\xa0\x11\x8a\x07\x1d\x57\x91\xbe\x20\x5c\x2c\x89\xaa\x00\xb3\xf8\x17\xba\x09\xd3\xf7\xa2\x99\xcd\x28\xcd\x84\xf6\xa4\x7e\x7e\xf3\xea\xa5\x29\xc8\xce\x6c\xf5\xb4\x75\xc5\xd4\x5a\x1d\x3a\x98\x0f\x1d\x5e\x96\xce\xf6\x63\x3d\x3c\x1f\x59\x07\xcf\xad\xac\x7d\xd9\x81\x06\xac\x14\x92\x92\xcc\xd2\x4c\x0b\x49\x5f\x42\xf4\x19\x22\xae\x70\x64\x04\x0f\xba\xde\xad\xcb\x06\xca\x66\xc4\x5d\x1d\xc1\x7b\x3c\x7e\x3e\x49\xb4\xf8\xc1\x94\x63\x4d\xf9\x5a\xed\xe2\x05\xae\xc5\x6e\x28\x5a\x22\x6c\x6e\xa9\x85\x04\xd4\x8a\x16\xbb\xc4\x5d\xda\xb6\x7a\x96\xcd\x01\x5f\x3d\x53\x53\x9a\xa1\x57\x3a\x66\xea\x00\xd9\x71\x48\xee\x38\x79\x62\x67\xc0\x6e\x13\x4f\xe7\x22\xda\x30\x71\xe0\xac\xbb\x1f\x3c\xa4\x9a\x6d\xe2\x24\xbd\xa1\x32\x8e\x8c\x20\x3c\xbf\x5d\xd5\x34\x1a\xf9\x2a\x4f\x2f\x60\x69\x99\xcc\xc7\xbf\x2b\x1e\x2c\x1f\xb6\xeb\x40\xab\xc3\x33\x39\x2c\x0c\xd3\x53\xc4\x8a\xb0\xc1\x36\x2e\x77\xa3\x9e\x9e\xe9\xd7\x54\xc6\x77\x36\x35\xb8\x09\x03\x75\x34\x2e\x74\x85\x6a\xaa\xd9\xe1\x5b\x34\x1d\x4b\x92\x7b\x4a\x42\xe1\x2e\x66\x7b\xb0\xf6\xd8\xac\x45\x5c\x01\x9f\x80\x98\x19\xc8\xf8\xda\x38\x8d\x0f\xa9\x62\x0a\x83\x31\x76\x4c\x5c\x63\x8c\xd4\x4e\x50\xde\xb4\x7c\xa7\x7d\x19\x1e\x4f\x9b\x39\xbc\x7d\x87\x45\xb7\x89\xe1\xf5\x75\xa8\x6c\xb5\x07\xf0\x59\xc8\xc5\xb8\x2d\x9f\xbd\x29\xcd\xce\x22\x84\x11\x7c\xfe\x90\x3c\xd9\x8e\x81\x6b\x2b\x45\xb0\xdf\x52\x98\xc0\xcf\xfe\xef\x9f\xff\x99\x66\xa1\x9c\x96\x38\x26\x81\xbf\xd0\xef\xb0\x6b\x80\x68\x4c\x60\xda\xcc\xdf\x5e\x60\xe3\x3b\xa3\xe6\x8c\xac\xc4\x0a\x12\x45\xb7\x79\x1c\x59\xe9\x00\xb8\x28\x95\xca\xbd\xc0\xf0\x15\x66\x72\x6b\x34\x77\xa0\xac\xca\x73\xe4\x2b\x67\xc8\x63\xc7\x68\x84\xc0\x4d\x9a\xd6\x40\x35\x45\xc0\x2f\xe9\x43\xfc\xa0\xcf\x85\xa2\x91\x92\xa1\xfe\xda\x6d\xe1\xc0\x3a\x0c\x54\x2f\x7c\x46\xf9\xf2\x6b\x9c\xe5\xc2\x08\xd0\x5f\x1b\x71\x8e\xfb\x6e\x7a\x11\xc9\xc4\x9c\xe1\x5d\x91\x25\x75\xd2\x50\x09\x52\x6f\x73\x5b\x37\x43\x00\x53\xd7\x3a\xec\xdd\x96\x63\x6a\xb7\x53\x9d\x5c\xf2\x26\x75\xa8\x2a\xb4\xf0\x3e\x82\x9d\x0a\x67\x0a\x03\x2b\x7b\x01\xfc\x7c\xbe\x33\xc9\x2d\x8f\xc4\xcb\x16\x68\xe2\xc9\xbc\x38\x81\x6e\x8d\xdc\x32\x6d\x67\x18\x18\xdd\x1e\x2b\x6c\x34\x67\xa7\x03\xc2\x20\x15\x76\xe2\xe7\xdb\x11\x86\x83\x36\x89\x17\x93\x3a\x60\x94\xb8\xa0\xc4\x5e\xed\xbf\xed\xe4\x2a\xec\xfb\x13\x24\x2a\x8f\xaa\x6f\xf7\xe0\x18\x14\x7e\xe7\x46\xd7\xf8\xfe\xab\x9d\xe7\x9a\x70\x5a\x4a\xe3\x13\x3a\x3e\x55\x95\x67\xa8\x8e\x10\x2b\xdb\xaa\x20\x23\x07\x1f\x8a\xbf\x07\x5e\x88\x62\xef\xb2\x7a\x7d\x5e\x38\x33\x0a\x46\x75\x19\xf6\x77\x83\x8c\xce\x29\x07\x9e\xa2\xd4\x4e\x2f\x31\x50\x89\x02\x48\x49\x0c\xf4\x85\x5b\xf7\x77\x6b\xad\x06\x32\x4a\x6e\x34\x82\xf0\xc0\xbb\x84\x9b\x29\xd8\x7f\x4d\x49\xf6\x34\xcf\x63\x0d\xfc\xb8\xa2\x46\x5b\xc5\x3f\x47\x85\x37\x82\xc8\x48\x02\x8e\xca\xd6\x1a\x3c\xb8\x32\x4b\xce\xc8\x48\xea\x2d\x41\xf4\xa5\x5a\x5b\xd0\x58\xa1\x86\xae\xd1\xc5\x04\xdc\xad\x95\x56\xdc\x19\x3b\x4f\x75\x0f\x9e\xe6\x79\xf5\x70\x4d\xb8\x64\x24\xc7\xa8\x9a\xe4\x8d\x31\x0a\x9f\x33\x31\x23\x3c\x7b\x53\xaa\x1b\x46\x17\xed\x1b\x5b\xd9\x81\x4b\x9f\x80\x3f\xe1\x8e\x48\xc5\xdc\xe2\x8e\x50\xed\x17\xab\xc3\x82\xb5\x57\xb4\x1a\x34\x3a\xc4\x74\x07\x76\xdd\x43\x56\x43\xbd\x8f\x92\xb9\x9a\x20\x81\xa7\x10\x9f\x91\xcc\xb0\x83\x79\x87\x08\xb4\x68\x39\x6f\x1d\x3d\xca\x6b\xc2\x49\x21\xac\xbb\xf2\x2b\xc2\x45\xcc\x13\x53\x4c\xd3\xbe\x47\xdf\xfe\x43\x43\xf9\xaa\xed\xce\xd3\x37\xaf\xbf\x4b\x7f\x89\x8d\xb1\x1d\xe0\x75\x09\x7d\x1f\x46\x17\xb2\x5e\x4c\x5a\xae\x55\x17\x2e\x8c\x03\xa3\x4a\x61\x4a\xdb\x2d\xfd\xae\xd2\x86\x35\x44\x6a\x91\xba\x0f\xc6\x59\x15\x94\xf4\x6b\x5a\xaa\x49\xdd\x6e\xa2\x77\xd3\x09\xea\xba\x5f\xfb\x51\x78\x55\xd2\x6a\xbe\x83\x07\xfd\xb0\x8b\x87\x5a\xd6\x8f\x41\xc4\x1d\xab\xcf\x39\xfd\xd0\x26\xac\x8d\xd3\xa2\x22\xc9\xb6\x6b\x1b\x19\xec\x71\x88\x7a\x25\xe6\x50\xaa\x52\xcb\x47\x61\xbd\x03\xa7\xd7\x89\x50\xf2\x73\xdb\x1b\xd0\xbe\x11\x3f\x21\x0d\xd9\x83\x60\x9f\xec\xeb\xb5\xad\x87\x32\x93\xce\x44\x1a\x12\x14\x2f\x76\xc4\xc4\xb6\x90\x70\xb2\xe0\x8d\xa0\xd7\x28\x60\x50\x5e\x0a\x5f\x7c\xbc\x11\xf4\xaa\x6c\x8a\x97\x4d\x31\xa5\x5c\x5c\xb4\x2f\xae\x0a\x26\xdf\x94\x75\x55\x37\xe8\x12\x67\x4e\xac\x6c\xc2\x8e\x3c\x6d\x71\xb3\xe8\xb8\xd2\xf4\x34\x56\xa8\xa6\x2f\xa8\x10\x64\x41\x93\x7d\xc5\x0b\x96\x0d\xde\x8f\x8c\xb4\x72\xe6\xa4\xb2\xa4\xbc\x5e\x7e\x26\xd5\xd5\x2f\x0a\x63\x0c\xf4\xc5\x50\xfa\xe3\x88\x3b\x5a\x68\x28\xa5\xda\xda\xee\xd6\x14\x57\xc2\x6e\x5f\x12\x15\x01\xef\x26\x50\x97\x44\xc0\x92\x64\x7a\xec\x50\xca\x54\x25\xea\x32\x2c\xd3\x64\x18\x15\x6e\xf9\xdb\xbf\xea\x2b\x97\x54\x43\xd1\x86\x94\x48\xad\xd2\x77\x99\x5a\x64\x66\x8c\xb6\xba\xb0\xa2\x45\xc7\x38\xa1\xe8\x8d\x8b\x4a\x03\xe9\xe6\x65\xf7\x66\x64\xf7\xe6\x59\xef\x46\x8e\x42\x9e\xa7\xb2\x77\xc8\x16\xfe\x2a\x25\xbb\x0b\x03\xe5\x33\x92\xbb\x29\x69\x7b\xa5\x6a\xb6\x44\x59\x96\xaa\x37\x24\x17\x15\x90\x2c\x33\x67\x58\x49\x7b\x68\x78\x1e\xee\x4f\x0c\x47\xa6\xeb\x39\x5e\x3c\x1e\x19\x21\x7e\x4d\xe4\x32\x39\x34\xd0\xed\x0a\x16\xe2\x23\xcf\xa1\x10\x89\x92\x8f\xce\x20\x23\x08\x93\x34\xb1\x6d\x27\x64\x90\xbd\xd1\x6d\x88\xb5\x27\x81\x5c\x02\xf6\x34\xd2\x0b\x72\x76\x8f\x56\x2b\x91\x86\x6a\x45\x25\x55\x7c\x01\xc3\x07\xa4\xc4\x7b\x5b\xdf\x63\x11\x7e\xad\x6f\x88\xe9\x36\x94\x93\xb3\xaa\xa0\xfa\xe2\x42\x3b\x49\xc6\xc4\x0c\xef\xdd\xaf\x40\xac\x84\xa4\xc5\x08\x84\xaa\x07\xcf\xd9\x1d\xcd\x57\x96\xe9\x90\x8d\x20\x5a\x56\x42\x5e\x20\x47\x47\x46\x80\x76\x56\x10\xbb\xa9\x6c\x49\xf1\x60\xe4\xf6\xf4\xfc\x32\x9b\xc3\x27\x96\xe5\xbe\x21\xe2\x9a\xd3\x39\x7b\x74\x33\x8e\x20\xc2\x53\x19\x69\x8f\xdc\xe1\x31\xd1\xcd\x17\xe3\x71\x04\xff\xc7\x51\x02\xb9\x32\x68\x9c\x14\x6c\x78\x9e\x5e\xa3\x75\xe2\xa0\x1d\x5d\xa9\x85\xc6\x45\x13\x9a\x9b\xbb\xe8\x59\xf6\x78\x1c\x26\xbf\xaa\xaf\x38\x44\x2f\x2b\xbd\x91\x5e\x78\x5b\x97\xd8\x2b\x82\xe8\x60\x10\x02\x7a\xa8\xf8\xdd\x08\x74\xc8\x1c\x8c\xa6\x47\xc7\x0f\xef\xe0\x71\x6d\x6f\xea\xb7\x0c\x49\x18\xb5\x61\x5b\x65\x2e\x1c\xef\x0b\x05\xeb\x35\xde\xe8\xdd\x76\x7e\x0c\xd2\xf8\x56\x45\x00\xad\xb1\x81\x02\x95\x95\x19\x7d\xdc\x1d\xf1\xa5\x1d\x63\x92\xf9\xdb\x5e\xc5\xbe\x5c\x3e\x1a\x1b\xea\xbf\xc1\x9e\x71\x3d\xb7\x79\xbd\x84\xbe\xc9\xd5\x0f\x86\x8d\x8d\x05\x19\xcc\xaa\x7a\xf5\xe6\xf5\x77\x71\x33\x02\xbf\xff\x33\x22\x28\x8a\x0f\x0c\x1f\xdb\xae\xad\x75\xb0\x8b\x55\xd7\x2e\xed\xc6\x88\x0d\x65\x7a\xd2\xfe\x3b\x39\xfd\x60\x3b\xad\x6f\x6d\xdb\x76\x37\x3b\xbf\xdb\x9f\x4e\x5c\xf5\x66\xfa\xf7\xee\x3b\x9c\xff\xa9\x76\x7e\x28\x90\x6e\x2a\x09\xb6\x89\x68\x5f\x9b\x92\x88\xbd\xeb\xf5\x2a\x0c\x94\xe4\xb1\xfb\x38\x25\x82\xc2\x19\x9e\xe1\x37\xaf\xbf\x1b\xa9\xe4\x92\x51\xad\x89\x6b\xc6\xf3\x5b\xa2\x5d\x70\x31\x81\x33\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\xe3\x1b\x13\x60\xb8\x94\x8f\x36\x35\x7a\x83\xf6\xed\x4c\x95\xb8\x37\xdc\x84\x6a\x90\x1d\xed\xc1\x95\x15\xd4\x4d\x9e\xab\x76\xa3\xe7\x68\x86\x16\x86\x80\xaa\x41\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xc2\x9a\xb0\xbe\x03\x8a\xb6\x82\x09\x77\xa4\x00\x2f\x2b\x69\xae\xec\x22\x48\x84\xa5\x24\xc5\x92\xdc\x53\xb0\x9f\xe2\xd8\x6f\x92\xa8\x79\xa6\x2a\x5b\x65\x6e\xad\xa9\x6b\x39\x28\xf9\x2d\x6a\x78\x01\xda\xc4\xf7\x89\x2d\x4b\x52\xb6\x07\xae\x6a\xe5\x02\xd5\x2e\xb5\xe7\xdf\xa9\xa3\xdc\x29\x5c\x93\x5a\xee\xd2\x4e\xa7\x93\xbd\x3b\x23\xc3\xfa\xc0\x8f\xf8\xf4\x74\x32\x19\xb7\x3d\x77\x2e\x8f\xb0\x0e\x7f\xb2\x84\xb2\xb3\x78\x4c\xe4\xd7\xcf\x23\x3b\x9d\xa1\xf3\xbe\x09\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x41\x81\xbd\x1d\x92\xea\x15\x36\x7b\x23\x52\xdb\xfe\x95\x09\x47\x69\x6b\x6c\x3b\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x5a\xdf\x67\x3b\x24\x65\x9a\xd1\xf1\xd5\x66\x9e\xc9\x92\xb8\x37\x68\x50\x13\x15\x0e\xf8\x7f\x5f\x7e\xe9\xa7\x8b\x46\xf0\x60\x72\x22\x2a\xe0\x59\x73\x8a\x46\x0e\x51\xe7\x81\x94\x0a\x96\x32\x0a\x14\xa3\x12\x29\xf1\xa3\x0a\x78\x7e\xf4\x2a\xfc\xf3\x67\x02\xd8\x50\x68\x17\xa6\xc5\xd1\x22\x71\x30\x64\x66\xcb\x43\x7a\x42\x66\xbd\x64\xdf\x1f\x31\xd3\x93\x9e\x1e\x32\x3b\x25\x02\x36\xc1\x2e\xe9\xd5\xab\xaf\x06\x83\x60\x18\xc5\x6e\x63\xe3\xc8\x18\x8a\x04\x80\x74\x5c\xf9\x51\xaf\x2d\xf3\xa7\x0f\x16\x06\xd4\x7a\xe2\x69\x0e\xa8\x01\xa7\xe1\x71\x2f\x17\x01\x9f\x74\x12\x1f\xaf\x7e\xb1\x77\x8a\x79\xbc\x9d\x89\x48\x46\x10\x79\x3c\x73\x01\x5f\x7c\x96\x7d\x11\x8d\x3a\x73\xb8\xb9\xd1\x1c\xc1\x05\x1f\xe2\xe6\xf0\xe4\xb8\xde\x60\x58\x6f\x28\xaa\xb7\x09\x8f\x8f\xe9\x89\x3a\x79\x72\x78\x13\x7c\xa2\xd8\x05\x9b\x4e\x9f\xb7\x95\xcc\x41\x37\x2e\xe3\x0b\xa0\xab\xf2\x44\x01\xe4\x7a\x7a\x86\xc1\x8e\x49\x70\x6e\x44\xd5\x11\x26\xd4\xde\x58\x90\x8b\x9e\x87\xce\xdb\x35\xe1\x20\x20\xc7\x07\xcc\xd5\xe7\x25\xf0\xe4\xdf\x13\xce\xaa\x46\x00\xaa\x13\xb4\xc2\x50\x2f\x07\xe3\xf1\xae\xf2\x8d\xd1\x8e\x18\x81\x0a\x98\xe9\x9c\x36\x1e\x92\xc4\x8a\x82\x23\x96\xb5\x5f\x16\xa8\x2e\x03\x25\x64\x2e\x74\x84\xdf\x88\xba\x27\x39\xee\x45\x14\x99\xc8\xa4\x6e\xda\xff\x79\x80\x2d\x62\x98\xd9\x34\x93\xdb\x08\x27\xa7\x1f\xc2\x70\x4b\x7d\x0d\xba\xc6\xdb\xfd\x86\x7d\x6f\x1d\x95\xb8\x51\x32\x1b\xef\xd0\xcb\x25\x06\x7e\x49\x41\x25\xa6\x6d\xf0\xa2\xb7\x5c\x22\xda\xd6\x93\x53\x35\x54\x36\xa9\xb4\x75\x49\x54\x50\x15\x1e\xea\xc4\x3a\x71\x96\x1b\xdd\xee\x82\x9d\xb6\xe3\x66\xfb\xaa\x28\x9a\x8c\xd1\x58\xe1\xdf\xe7\xed\x21\x2e\xfb\x93\x07\xdb\x32\x08\xe5\x5c\xd5\xe4\x59\xf9\x85\x6c\x4f\xaf\x5e\xe5\x67\x1f\x22\x6d\x7c\x5a\x09\xaa\xa9\xf2\x9a\x3c\x18\x23\xb3\xb1\xbf\xdd\x3b\xf7\x02\x7f\x6c\x51\x4e\x31\x5e\x97\x74\xaa\xe0\xa2\x37\x62\x8d\x02\x4e\x16\xb5\x49\xcf\x9a\x0d\x96\x45\xdd\x25\xe7\x50\xec\x1a\x2c\x1d\xcf\xe1\xb8\xb0\x31\x9b\xab\x03\x61\xba\xbd\xa6\x35\xc5\x18\xa3\x1d\xf6\xad\x78\x46\x3c\x89\xda\x42\x8e\x2f\xed\x47\xf6\x4c\xcf\xaf\x2b\xec\x05\x91\xdd\xfe\x28\xb1\x23\xf4\x52\xdf\x46\x2e\x44\xfd\x4b\x17\x8f\x37\x75\xd8\xef\x34\x0b\xa7\xae\xc7\x25\x29\xa8\x29\xdc\x6e\x67\xa5\xb9\x70\xcf\xc6\xe0\xf3\xae\x58\x0c\x8d\xb7\xf9\x10\x83\x46\xfa\x34\xcb\xe2\x3d\xa8\x8c\xbc\x2f\x53\xc5\xf7\x18\xf3\x6a\xf3\x26\x1d\x6e\x44\x9c\x10\x23\x24\x46\xc5\x21\x46\x7d\xb9\x43\xb4\x64\x9b\xae\x16\x7f\x45\x77\xf3\xee\x46\x12\x7e\xf5\x58\xf3\xcd\x86\xcd\x07\xc9\xe0\x18\x1a\x5a\xcf\x2a\x08\x02\x59\x98\x0b\x6c\x5b\x75\x20\x43\x60\xcc\x7a\x7a\x0e\x49\xef\x39\x31\xc7\x64\x4e\x58\xae\x0b\x75\xec\x29\x19\x82\x1f\x75\x09\x66\x44\x9e\x95\x10\xb1\x2c\xea\x24\x3c\x69\x37\x34\x84\x64\x1f\xd5\x60\xd3\xa1\x89\xde\x16\x4b\xa0\xf5\x7a\x7c\xf6\x87\x7f\xf9\xeb\x1f\x7e\xff\x4f\x3f\xfc\xe3\xbf\xfe\xf0\x77\xbf\xfb\xe3\x3f\xfc\xcd\x7f\xfc\xdb\xbf\xff\xe1\xf7\x7f\xfb\xc3\x3f\xff\xee\x8f\xbf\xfb\xfb\xb3\x31\x9c\xef\xdf\x13\x47\xb0\xa1\x25\xc3\x27\x13\x9f\x88\x1f\xc1\x66\x67\x43\xa0\x77\xd8\xcf\x5f\xd9\x47\x4c\x74\x68\x9e\x2e\x19\xdb\xba\xc1\xad\x27\xf3\xb0\xd9\x74\x45\x52\x85\x99\xab\xa1\x5c\xd6\xae\x5c\x52\xdd\x87\xe5\x52\x0b\xb6\x76\x7a\x43\x0f\x31\x36\x1b\x74\xf6\xcd\x1d\xc1\x4a\xbd\xed\x9e\x41\xd3\xb6\x7d\x08\xd1\x8e\x35\x1a\x19\x29\xf3\x35\x95\xeb\xb5\xed\x6b\xae\xa2\x26\x4f\x54\x8f\x4f\x26\xd0\xbe\xfa\x4b\xca\x2b\xe5\x0c\x7b\xc2\x65\xef\x41\xec\x05\x6c\x48\x3e\x74\x16\x4f\x3e\x8d\xbd\x93\xd8\xe3\xe8\x58\x68\xdf\x91\xdc\x61\x29\x03\xec\xd0\xa9\xec\x67\xcf\x9f\x92\xb8\x47\xe3\xe5\xf1\x3a\xe2\xb7\x83\xa0\xcf\xd2\x5b\x8f\x9d\x27\xf3\xa0\xa2\xaf\xad\xee\x57\x13\xc2\x04\x0c\x3a\xda\x6c\x8c\x95\x99\x64\xf8\xba\xf4\xec\x35\x15\xb3\x8c\x16\x54\xea\xef\x27\xfa\xf6\x00\x5a\x9f\x5d\x73\x40\x56\xaf\xa9\xfc\x58\x0b\xf0\x18\xb3\xe0\xfc\x40\x32\xb9\x9b\xd4\x1e\x9f\xc1\xab\x32\x5f\xa9\x6f\x31\x21\xc2\xaa\xb7\x30\x49\x2d\xb1\x44\xab\x09\xa6\x2e\x62\x84\x63\x31\xcf\x80\xb7\x12\x15\x65\x2b\xb9\xf4\x0b\x3d\xab\x82\x49\xb4\x29\xb2\x46\x7d\x26\x06\x7d\x53\x56\x52\x21\xe0\x6c\x6c\x66\x54\xcb\xef\x15\x4d\x07\x2c\x83\x56\x62\x75\xf6\xcf\x1c\x8c\x6d\xb7\xef\xc5\x61\xa7\xaf\xf5\xfa\x06\xf3\xb4\xc3\x89\xda\xc1\x4c\xad\x3a\x22\x78\x4f\xc2\x19\xae\x0e\x43\x5f\x52\x7c\xbc\xfd\xaa\xdd\x28\xe5\xa6\x63\x68\x05\x45\x10\x7c\x76\x1f\x8d\x40\x51\xb6\xb5\x62\x9f\x61\x07\x17\x78\x70\xdf\xca\x8c\xb1\x12\x50\x60\x59\xf8\xb3\x66\x3e\xa7\x3c\x46\x5c\xfd\x62\x66\xf0\xcb\x05\x8c\x0f\x1a\xec\x7e\x40\xec\xe0\xe7\x43\xdc\xf7\x44\x8f\xcd\xc7\xbd\x7c\x7a\x7b\xf3\x31\x77\x25\x6c\x41\x19\x8e\x07\x1d\xc3\x74\xcf\xe6\xfe\x24\xe2\x82\x88\x96\x23\x10\xfc\x5e\x3f\xbb\xef\xc3\x19\xaf\x6d\xf7\xd3\x74\xc7\xde\x81\xec\xbb\xcd\x78\xd3\x4c\x1d\x03\x20\x0e\xa8\xae\x1b\x7a\xd3\x4c\xc5\x8c\xb3\x29\x8d\xb7\x6e\x2f\xea\x41\xfe\x17\x31\xd0\x93\xeb\xeb\x83\x22\x99\xdf\xfb\x3d\x15\x10\xfa\x42\x2c\xd4\x62\x93\x83\x9c\x65\x38\x04\x9d\xc9\x7e\xc4\xbd\xdb\x81\x1e\x1b\xac\xd7\x9d\xcf\x49\x90\x3b\xea\x6d\xd8\xb1\x1f\x6c\xc1\x21\x47\x7c\xb0\xa5\x85\x7c\xf0\x62\x49\xe7\x63\xb5\xa9\x23\xb0\x29\xd7\x4f\xfc\xbd\x1e\xf8\x50\xcb\x7e\x08\xa6\xec\xe0\xbf\xdf\xf7\x5a\xda\x75\x1d\xbc\x29\x6a\x98\xd4\xed\xf1\x05\x74\xd7\x8c\xf7\x2b\xdc\xb2\x4f\xfa\x48\x0b\x6e\x94\xd7\xc3\xe8\xab\x91\xb9\x67\x7e\x55\xf6\xf6\xf1\xf2\x6a\x6d\x8f\xad\x3a\x9e\x53\xbf\xe2\xe2\xed\xb2\x57\xca\x7f\xfa\x57\x5c\x3c\x38\xae\x28\xf8\x30\x71\xbd\xe5\x01\xc0\x59\x97\xba\x2d\x69\x77\x3e\xca\x62\x66\xda\xce\x25\x0c\xcd\xe3\x45\xb3\x91\x64\xeb\x75\x97\xec\xfd\x59\x95\x42\x2c\x8c\x00\x7c\x21\x16\xc3\x41\xec\xdd\xfa\xce\xbe\xeb\x8d\x7b\xaa\xc4\x0b\xb1\x48\x9f\x2b\xbd\xd7\x5f\xd7\xd8\x97\x86\xb7\xbc\x3c\x70\x57\xd2\x90\xc7\x44\x3a\xdb\xc2\xb4\x1e\x7e\xd9\x0e\x46\xaa\x05\x1f\x51\x98\x86\x81\x32\xa8\xa6\xbf\xc1\x82\x0b\x13\x6b\x14\x6e\xbf\xec\x77\x31\x5e\x90\x72\xa5\xf3\x2b\x98\x75\xb3\x05\x18\xfa\xf3\x7a\x0d\xc6\x05\x30\xc9\x81\xe8\xa1\x00\x2c\x05\xc3\x14\x9b\xb9\xbd\x63\x84\xda\x20\xde\x03\x99\x30\x9c\xd7\x98\xed\x23\x28\x67\x1d\x0d\xe6\x72\x00\xfd\xc1\x47\x4b\xe7\x0e\x0f\xea\xf9\x71\x09\xfe\xc4\x66\x22\x9c\xa1\x05\x9b\x9c\x52\x43\x83\x2b\x32\xf1\x68\xdb\x76\x42\x0d\x8d\x37\xfa\xc0\x57\x18\x70\xf9\xff\xd5\x5f\x61\x68\xb1\xdb\xb5\x22\x06\x15\xd0\x75\x33\xcd\x99\x58\x52\x7e\x4a\x89\x4c\xff\x27\x18\x8e\xb5\x3e\x3e\xe6\x1b\x0c\xb6\x6c\x63\xdf\xb0\xc9\x16\x0f\xbd\xa4\x0f\x6e\x75\xa6\x72\xc3\x7d\x8c\x21\x08\x8e\x30\x68\x42\xaf\x38\xa3\x73\x14\xfc\x8a\x8c\xe7\xf4\x90\xce\xd8\x2d\xc5\xd8\xae\xc4\xe8\x54\xbe\x3a\x81\x62\x4f\x46\x6f\xdd\x45\xaf\xc8\x35\xae\x94\x87\xc8\x56\x5d\xc4\xe9\x5f\x58\xc0\x85\x0d\xa5\x90\x87\xc4\xbe\xcb\x1c\x0f\x50\xa5\x57\xf6\x1d\xf7\x85\x05\xab\x17\xfe\x64\xdf\x52\x18\x40\xf9\x08\x55\x05\xc3\xba\x0a\x0b\xe6\x8e\x50\x43\x94\x73\x3b\xdf\x8e\x3a\x1a\x8f\x61\x57\x23\x8d\xc7\xb0\xf1\xa0\xdb\xc1\xa9\xaa\x9a\xb7\x83\x3f\xff\x7c\xf7\x5d\x8a\x79\x4b\xf5\x1d\xc7\xf7\xcc\xdc\x05\x7b\x1f\x0d\x4c\x63\x73\xb9\xbb\x40\x6c\xc9\xae\x45\xa4\x27\xff\xd9\xfb\x85\x88\x63\x95\x72\x5f\x62\x72\xbf\x56\xee\xff\xa0\x92\xcf\xc3\x46\x37\xf7\xab\x66\x93\x23\xdb\xa3\x99\xbb\x97\x6c\xdc\xff\x03\x8e\xa9\xd3\x31\x11\x12\xe5\x3a\x0c\x28\x6b\xdc\x6a\x2b\xe9\x5f\x88\xc5\xb6\xae\x3e\x57\xb8\xfe\x34\x0a\xfb\x58\x1b\xeb\x50\x76\xd0\x92\x7c\x50\x41\xbb\x89\xd4\x89\x70\xe0\x12\x6f\x1b\xfe\x73\x00\x6e\x26\x66\x0d\xb1\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27037, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x4, 0x77, 0x1c, 0x2f, 0xc5, 0x63, 0xbe, 0x52, 0xa8, 0x6c, 0x58, 0xe7, 0x5d, 0x42, 0xc1, 0x55, 0x22, 0x42, 0xc7, 0xb4, 0xa2, 0x1c, 0xa2, 0xc3, 0x98, 0x2f, 0xa, 0x9a, 0xb7, 0xa0, 0x36, 0x4}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27057, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x4a, 0xd1, 0x40, 0x8f, 0x5d, 0xd2, 0x86, 0x67, 0x58, 0x4f, 0xf5, 0x91, 0x80, 0x1f, 0xee, 0xaa, 0x5f, 0x80, 0x2d, 0x7b, 0x5a, 0xed, 0xc5, 0x93, 0xf5, 0xe0, 0x25, 0xe4, 0xd2, 0x94, 0x29, 0x29}}
 	return a, nil
 }
 
@@ -118,7 +118,7 @@ func cmdNameMainGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x56\x4d\x6f\xe3\x36\x10\x3d\x8b\xbf\x82\x25\xbc\x0b\xaa\x75\xe8\x45\xb0\x7b\x59\xc0\x87\xb5\x8b\xee\xe6\xd0\xc0\x48\x8c\xf6\x90\xe6\x40\x53\xb4\x4c\x84\x26\x15\x8a\x4a\x52\x08\xfa\xef\xc5\x50\x92\xe5\xcf\xd8\x75\xd2\xfa\x22\x82\x63\xbe\x37\x6f\xf8\x66\xa4\x8c\x8b\x07\x9e\x4a\xbc\xe4\xca\x20\xa4\x96\x99\x75\x1e\x53\x14\x11\x61\x8d\x97\x2f\x9e\xa0\x88\xcc\x35\x4f\xe1\xa9\x2d\x3c\xca\x52\xcd\xb1\x7c\xc4\x6c\x6c\xcd\x5c\xa5\x6c\xea\xb8\xc9\xc3\x31\xc2\xb5\x26\x98\x18\xee\x73\x82\xab\x0a\x45\x24\x55\x7e\x51\xcc\x98\xb0\xcb\x01\xec\x5e\x28\x1b\x9e\x2c\xb5\x01\x48\x9a\xa4\xaa\x10\x8a\xb2\x19\x26\x65\xc9\x26\xa3\xab\xc0\x3f\xe1\x7e\x81\x2f\xaa\xea\x14\xb2\xd4\x65\xa2\x25\xb3\x36\xd5\x92\xa5\x56\x73\x93\x32\xeb\xd2\x41\x08\x76\x44\x31\x42\x4f\xdc\x81\x3a\x08\x7c\x4b\x12\x87\x73\xef\x94\x49\x51\xb4\xf0\x3e\xdb\xd8\x80\x34\xd7\x37\x62\x84\xe6\x85\x11\x58\x19\xe5\x69\x8c\x4b\x14\x41\x55\xd8\x6d\x88\xfe\xc1\x1d\xfd\xd8\x62\xf6\xeb\xa4\x18\x4f\x12\x47\xfa\x98\x7c\xfd\xf2\xe9\xf3\x27\x58\xa4\x37\x93\x31\xa6\x3f\xa6\xd3\x49\x8c\xb5\xca\xbd\x34\x18\xfe\x23\xf3\x9c\xc4\xbb\x70\x6d\x46\x7d\x4c\x60\xb9\x0e\xf7\x25\xc0\x01\xd0\x09\x38\xad\x90\x7e\x7d\x31\x1d\xce\xe7\xcb\xcb\x4b\x58\x5c\x7f\x9b\xde\xee\xe2\x54\x8d\x5e\xf0\xc5\x9a\xde\x09\x77\xb9\xa4\x31\xd4\xf4\x59\xf9\x05\xee\x79\x89\xbf\x0e\x31\x0b\x37\xd0\x5e\x56\xcf\xcb\x13\xee\x6b\x30\xc0\x23\xee\xac\xc1\xdf\xa1\x2e\x63\xad\xa4\xf1\x28\xd2\x36\x65\x13\xa7\x8c\xd7\x86\x92\x3b\x08\xb1\xb2\x04\xc0\x5b\xe9\x9e\x94\x90\xec\x9a\x2f\x65\x55\xdd\x83\xd4\x4c\x1b\x48\x45\x58\x63\xfa\x58\x3a\x07\x99\x84\xd2\xff\xaa\xb8\xa6\x28\x5a\x5d\x73\xbf\x59\xb3\x3f\x95\x5f\x5c\x99\x5c\x8a\xc2\x49\x1a\x6f\x6c\x8f\xb4\x15\x0f\x61\x2f\x46\x11\xe8\x70\x0e\xff\x34\xc4\x46\x69\x10\x1f\xf2\xfa\x8d\x7b\xae\xa9\x74\x2e\x46\x51\x85\xa2\x44\xce\xa5\xc3\xc0\xce\xc6\xda\xd6\x65\x99\x81\x22\xc8\xba\xd6\xb3\x4a\x2b\x9b\xb1\x6b\xf9\xdc\x05\x28\x1c\x3b\x95\xa8\x2c\x1d\x37\xa9\xc4\x3d\x05\x50\xeb\xc5\xf8\x5d\xfa\x85\x4d\xf2\xa6\x9c\x07\xab\x05\x9b\xaa\x59\xa3\x08\x58\x84\x7f\x01\xac\xa6\xc9\xd9\x88\x8b\x87\xd4\xd9\xc2\x24\x20\x22\x82\x2e\x51\x06\x92\x2e\xcb\xef\x16\xce\xe1\x9e\x62\x37\xf2\xb1\x90\xb9\x9f\xfe\x9d\xc9\x15\x56\x64\x8b\x4e\xe4\x96\xf8\x8d\xc3\xf5\x01\x2a\xfc\x4b\x1f\x7f\x54\x20\x7d\x8f\xf6\x4e\xfc\x9c\x92\xbb\xe0\x0e\xd6\xe1\xdd\xe3\x03\xda\xb6\x59\x00\x76\xf8\xe1\xe9\x2f\x43\x42\x6a\xc0\x55\x35\x95\x0d\xd6\x7a\x1b\xb8\x93\x79\xa1\xfd\xf0\xc3\x2f\x35\xc1\xcf\xb6\xf0\xc0\xd0\x98\xb1\xea\xc6\xcd\xda\x80\x0b\x9d\x01\xf0\xd0\xb4\x3f\xa4\xce\xa4\xdb\xba\xbb\xba\x15\x42\x4f\xef\x6f\x05\x08\xdd\xdf\x1d\xeb\x85\x95\x55\x96\x01\xbd\xf5\xcb\x41\x5a\x08\x1c\xb4\x4c\x8d\xf1\x46\xdf\x34\x20\x6b\xe6\x09\xbe\x09\x5e\x01\xf6\xbd\x8d\xd2\x05\x68\x3b\x07\x8f\x39\x86\xae\xdd\xf4\x8e\x29\x3b\xbc\xdd\xcc\xce\x76\x66\x07\x7a\xd4\x3c\x1b\x54\xa7\xdb\xf3\x6c\x86\xd7\x3d\xfa\x9a\x49\x8f\x8c\xef\xf0\x6e\xdf\xb0\x6c\x78\x7d\xec\xb7\x2c\x84\x8e\x4e\x6f\x23\x56\x57\x15\xde\x4f\x63\x6b\x8c\x14\x9e\xb6\xef\xad\x7f\x37\x8d\x8d\xd8\x9a\xc5\x90\xc3\x5e\x8b\x75\x01\x6a\xc4\x7b\x4f\xe2\x83\xca\xff\xcf\x49\xdc\x29\x7c\x9f\x49\xdc\xe1\xfd\x07\x93\xf8\x1c\xf0\xf3\x26\x71\xbd\xaa\xea\xcf\x9b\xf0\x5f\x50\xbc\xe1\xdc\x8b\xf7\xfe\x85\x0f\xaa\x7f\x02\x00\x00\xff\xff\x06\x3c\xfd\x90\x6b\x0b\x00\x00")
+var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x56\x51\x6f\xdb\x36\x10\x7e\x26\x7f\xc5\x8d\x48\x0b\x69\x73\x98\x22\x68\x5f\x0a\xf8\xa1\xc9\xb0\xb6\x0f\x0b\x8c\xc6\xd8\x1e\xb2\xa0\xa0\x29\x5a\x26\x42\x93\x2a\x45\xa5\x19\x04\xfd\xf7\xe1\x28\xc9\xb2\x9d\xb8\x76\xdc\x60\x7e\x11\xc1\x13\xbf\xef\xbe\xe3\x77\x27\x17\x42\xde\x89\x5c\xc1\x52\x68\x4b\xa9\x5e\x16\xce\x07\x48\x28\x61\xd2\xd9\xa0\x1e\x02\xa3\x84\xcd\x8d\xc8\xf1\x69\x1c\x3e\xea\x5a\xcf\x41\x7d\x03\x7e\xe9\xec\x5c\xe7\x7c\xea\x85\x2d\xe3\x31\x26\x8c\x61\xc0\xac\x08\x25\x83\xa6\xa1\x84\xe5\x3a\x2c\xaa\x19\x97\x6e\x79\x86\xbb\xa7\xda\xc5\x27\xcf\x5d\x04\x52\x36\x6b\x1a\x4a\x49\x31\x03\x56\xd7\x7c\x72\xf1\x39\xf2\x4f\x44\x58\xc0\x69\xd3\x1c\x42\x96\xfb\x42\xf6\x64\xce\xe5\x46\xf1\xdc\x19\x61\x73\xee\x7c\x7e\x16\x83\x03\x51\x4a\xe9\xbd\xf0\xa8\xee\x2b\x74\xf2\x50\x04\xca\xa4\x94\xe0\xcb\x1f\xb2\xcc\x43\x19\xbc\xb6\x39\x25\x8b\x10\x8a\x8d\x0d\x4c\x7d\x7d\x23\xa5\x74\x5e\x59\x09\xda\xea\x90\xa4\x50\x53\x82\x95\xe2\xd7\x31\xfa\x97\xf0\xc9\xeb\x1e\x73\xd4\x26\xca\x45\x96\x79\x36\x02\xf6\xfe\xdd\x9b\xb7\x6f\x70\x91\x7f\x99\x5c\x42\xf2\x69\x3a\x9d\xa4\x60\x74\x19\x94\x05\x7c\x47\x95\x25\x4b\x1f\xc3\xf5\x19\x8d\x80\xe1\x72\x1d\xee\x5d\x84\x43\xa0\x03\x70\x7a\x21\xa3\xf6\xb2\x06\x9c\xb7\xe7\xe7\xe7\x88\x73\xf5\x61\x7a\xfd\x18\xa7\xe9\xf4\xa2\x57\xd6\xf4\x4e\x84\x2f\x55\x92\x62\x9d\xbf\xeb\xb0\x80\x93\xa0\xe0\xfd\x18\x78\xbc\x95\xfe\x02\x4f\x82\x3a\xe0\x0e\xcf\xce\xe0\x42\x78\x67\xe1\x23\xd6\xe5\xd2\x68\x65\x03\x25\xc6\xe5\x7c\xe2\xb5\x0d\xc6\x26\xec\x06\x43\xbc\xae\x11\xf0\x5a\xf9\x7b\x2d\x15\xbf\x12\x4b\xd5\x34\xb7\x58\xb2\xc2\x58\x4c\x45\x3a\x6b\x47\xa0\xbc\xc7\x4c\x62\xe9\x7f\xd7\xc2\x24\x94\xac\xae\x79\xd4\xad\xf9\xdf\x3a\x2c\x3e\xdb\x52\xc9\xca\xab\x24\xdd\xd8\xbe\x30\x4e\xde\xc5\xbd\x94\x12\xd4\xe1\x3d\xfc\x32\x06\xab\x0d\x8a\x8f\x79\xfd\x21\x82\x30\x89\xf2\x3e\xa5\xa4\xa1\x24\x53\x73\xe5\xd1\x5c\x96\x5f\x1a\xd7\x96\x65\x86\x8a\x30\xeb\x56\xcf\x2a\xad\x62\xc6\xaf\xd4\xf7\x21\x90\xe0\xb1\x43\x89\xbe\xc2\x18\xb6\x80\xf1\x02\xbc\xb0\xb9\x82\x13\x8d\xb2\xd7\x2b\xf4\xa7\x0a\x0b\x97\x95\x5d\x8d\x77\x96\x10\x37\x75\xb7\xa6\x04\x35\xca\xf0\x80\x58\x7d\xbb\x5c\x08\x79\x97\x7b\x57\xd9\x0c\x95\x11\x6c\x27\x6d\xa1\x98\xf1\xba\xfe\xe8\xf0\x1c\x9c\x68\xfe\x45\x7d\xab\x54\x19\xa6\xff\x16\x3d\x2e\x25\xc4\x55\x83\xf2\xad\xc4\x37\x0e\xb7\x07\x12\x19\x1e\x46\xf0\x5a\x5b\x64\x79\x5c\x90\xa1\x22\xf3\x84\xdd\x44\xcb\xf0\x01\xef\x16\x76\x68\xdb\x66\x41\xd8\xf1\xab\xfb\x7f\x2c\x8b\xa9\x21\x57\xd3\x95\x3b\xfa\xed\xe7\xc0\xbd\x2a\x2b\x13\xc6\xaf\x7e\x6b\x09\x7e\x75\x55\x40\x86\xce\xa1\xcd\x30\x97\x56\x8b\xae\x5d\x10\x1e\x3b\xf9\x93\x32\x85\xf2\x5b\x77\x17\xf3\x01\x0c\xef\xe8\x0f\x0c\xdd\xde\xec\x6b\x90\x95\x55\x96\x11\xbd\xf7\xcb\x4e\x5a\x0c\xec\xb4\x4c\x8b\xf1\x93\xbe\xe9\x40\xd6\xcc\x83\xd4\x24\x7a\x05\xd9\x9f\xec\x9e\x21\x90\xf4\xc3\x71\x9f\x63\xba\x1e\x22\x4f\x9a\x72\xc0\x7b\x9c\xd9\xd1\xce\x1c\x40\xf7\x9a\x67\x83\xea\x70\x7b\x1e\xcd\xf0\x63\x8f\xfe\xc8\xa4\x7b\x66\x3a\x7e\x57\xd8\x86\x65\xe3\x37\xe5\x69\xcb\x62\x88\xef\x73\xac\x95\xab\xab\x42\x70\x64\xb6\x4a\x86\xa4\xff\x98\x3d\x6f\x44\x5b\xb9\x35\xa0\x31\x87\x27\x2d\x36\x04\x12\x2b\x9f\x3d\x9e\x87\xd3\x87\x8f\xe7\x9d\xe5\xf8\x3f\xc7\xf3\x90\xf8\xcb\x8c\xe7\x01\x6f\xaf\x45\xf5\xb3\xfd\x7f\x0c\xf8\x71\xe3\xb9\x5d\x35\xed\x1f\xa1\xe8\x4c\xa8\xb7\xec\x7c\xfa\xd2\x3f\x96\xd2\x86\xfe\x37\x00\x2c\x16\xd6\xdb\xa9\x0b\x00\x00")
 
 func cmdNameClientMainGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -133,8 +133,8 @@ func cmdNameClientMainGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 2923, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xc2, 0xcd, 0x51, 0x79, 0x9a, 0x4c, 0xcc, 0x37, 0xb0, 0xb7, 0x60, 0x7c, 0x1d, 0x9f, 0xa5, 0x53, 0x53, 0x2e, 0xf6, 0x2, 0xf2, 0x9c, 0x5c, 0x8c, 0x6d, 0x31, 0xc4, 0x35, 0xab, 0x44, 0x75, 0xee}}
+	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 2985, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcf, 0xec, 0x42, 0xb1, 0x48, 0x14, 0xcc, 0xc5, 0x7a, 0x8c, 0x1a, 0xa4, 0x83, 0x42, 0xf1, 0x3c, 0x99, 0x61, 0x92, 0x25, 0xf4, 0x3d, 0xb7, 0xf9, 0xd6, 0xb1, 0xf0, 0xbb, 0x2f, 0x2c, 0xff, 0x4e}}
 	return a, nil
 }
 
@@ -218,7 +218,7 @@ func serverWrapperGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x84\x91\x5f\x4a\x03\x31\x10\x87\x9f\x33\xa7\x18\x96\x45\x76\x4b\x9b\x03\x08\xbe\xe8\x83\x08\x5a\x8a\xd6\x03\x6c\xb7\x63\x1b\xec\x26\x31\x99\xed\x1f\x86\xdc\x5d\xd2\x6e\xa5\xa2\xd0\xa7\x24\x93\xef\xf7\x91\x99\xf8\xa6\xfd\x6c\x56\x84\x91\xc2\xd6\xb4\x04\x60\x3a\xef\x02\x63\x05\xaa\x68\x9d\x65\xda\x73\x01\xa0\xfc\x02\x0b\x11\x3d\xbb\x7f\x3a\x5e\xcf\x1a\x5e\xe3\x24\xa5\x02\x6a\x80\x8f\xde\xb6\x38\xa5\xdd\xdb\x49\x51\xd5\x38\x12\x99\xbb\x67\xb7\xa3\x80\x7a\xa8\xea\x69\xd3\x51\x4a\xc3\x09\x05\x54\x20\xee\x83\xc5\x9b\x6b\xac\x24\x48\x00\x7c\xf0\x84\x57\xb5\x91\x43\xdf\x72\xb6\xfb\x85\x7e\xb7\xa6\xf3\x1b\xea\xc8\x32\x2d\x45\xfe\x89\x50\xc8\x6a\x91\x9d\xe1\x35\x96\x4c\x78\x7b\x87\x1a\x53\x02\x25\x12\x1a\xbb\x22\x2c\x4d\xae\x95\x4c\x3f\xe9\x17\xe2\xb5\x5b\xc6\x0c\xa9\x63\xe7\x55\xbc\xec\xf7\x12\xfd\xf5\xb6\x1a\x45\x4a\x33\xd4\xaa\x96\xf7\x38\x8c\x57\x3f\x9c\xd6\x31\x1a\x8b\x23\xbf\xd0\x22\x8f\x2e\x63\x58\x1a\xfd\x4a\x5f\x3d\x45\x9e\x1f\xfc\x59\x57\x63\xf5\x17\x8a\xde\xd9\x48\x17\xd4\x18\x29\x04\x17\x6a\x01\xa5\xd4\xb6\x09\x18\x28\x7a\xbc\x9e\xcb\xf8\xf9\x63\x72\x64\x8c\xd6\x6c\x40\xa9\xe3\x48\xc8\x2e\x53\x02\x91\x09\x9e\x76\xdf\x01\x00\x00\xff\xff\xb2\xb4\x55\x6e\x3c\x02\x00\x00")
+var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x84\x91\xdf\x6a\xeb\x30\x0c\x87\xaf\xad\xa7\x10\x21\x1c\x92\xd2\xfa\x01\x0e\x9c\x9b\xb3\x8b\x31\xd8\x4a\xd9\xba\xeb\x91\x26\x6a\x6b\xd6\xd8\x9e\xad\xf4\x0f\xc2\xef\x3e\xd2\xa6\xac\xdb\x0a\xbd\x32\x96\xbf\xdf\x87\x25\xf9\xaa\x7e\xaf\x56\x84\x91\xc2\xd6\xd4\x04\x60\x5a\xef\x02\x63\x01\x2a\xab\x9d\x65\xda\x73\x06\xa0\xfc\x02\x33\x11\x3d\xfb\xff\x70\x7c\x9e\x55\xbc\xc6\x49\x4a\x19\x94\x00\x22\x66\x89\xd6\x31\xea\x97\x93\x44\x3f\x11\xaf\x5d\x13\x53\x82\x6d\x15\xf0\x0d\x07\x91\xbe\x3b\x9d\x20\x42\xb6\x49\x09\x96\x9d\xad\x71\x4a\xbb\x21\x57\x94\x38\x12\x99\xbb\x47\xb7\xa3\xf0\x65\x9b\x56\x2d\xa5\x34\xdc\x50\x40\x05\xe2\x2e\x58\xfc\x73\x8b\x95\x04\x09\x80\x0f\x9e\xf0\xa6\x36\x72\xe8\x6a\xee\xed\x7e\xa1\x5f\xad\x69\xfd\x86\x5a\xb2\x4c\x8d\xc8\x95\x08\x85\x5e\x2d\xb2\x33\xbc\xc6\x9c\x09\xff\xfe\x43\x8d\x29\x81\x12\x09\x95\x5d\x11\xe6\xa6\xaf\xe5\x4c\x57\xa6\xa2\xd4\xb1\xf3\x22\x5e\xf6\x7b\x89\x7e\xfb\x5b\x89\x22\xb9\x19\x6a\x45\xcd\xfb\x9f\xf3\x1c\xa3\xb1\x38\xf2\x0b\x2d\x72\xef\x7a\x0c\x73\xa3\x9f\xe9\xa3\xa3\xc8\xf3\x83\x3f\xeb\x4a\x2c\x7e\x43\xd1\x3b\x1b\xe9\x82\x1a\x23\x85\xe0\x42\x29\xa0\x94\xea\xd7\x17\x28\x7a\xbc\x9d\xeb\xf1\xf3\x62\xfa\xc8\x18\xad\xd9\x80\x52\xc7\x91\x9c\xd6\x2d\x32\x41\xb2\x4d\x4a\xf0\x39\x00\x08\x8b\x65\xb3\x76\x02\x00\x00")
 
 func serviceServiceGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -233,8 +233,8 @@ func serviceServiceGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "service/service.go.tmpl", size: 572, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcf, 0x67, 0xd4, 0x35, 0x7d, 0x82, 0xea, 0x92, 0x9a, 0xdd, 0x29, 0x78, 0xfd, 0xb4, 0xc4, 0xb4, 0x66, 0xb4, 0x58, 0x32, 0x35, 0x9a, 0x5d, 0xa7, 0xfa, 0x9a, 0x94, 0xe, 0x89, 0xcc, 0xfd, 0xcb}}
+	info := bindataFileInfo{name: "service/service.go.tmpl", size: 630, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x45, 0xbf, 0xaf, 0x82, 0xb1, 0x80, 0x98, 0x33, 0x4a, 0x3b, 0xa6, 0x22, 0x5, 0x92, 0x0, 0x72, 0x17, 0x88, 0xe7, 0x5b, 0x8b, 0x47, 0x61, 0x2a, 0xbb, 0xfb, 0xf8, 0x8d, 0x22, 0x8, 0xf8, 0x20}}
 	return a, nil
 }
 
-- 
2.43.0


From baea5f1e1847e9b9ec6191e9a72ecbe9e73de010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 22/44] fix: send members of a oneof with zero values in the
 query

---
 gengokit/httptransport/httptransport.go       | 19 +------------------
 gengokit/httptransport/types.go               |  4 +++-
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 10 +++++-----
 gengokit/template/template.go                 |  8 ++++----
 4 files changed, 13 insertions(+), 28 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 9098470..e31c9fd 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -102,7 +102,7 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			option.ConvertFunc, option.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(option)
 			typeConvStr := "&%s{%s: %s}"
 			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
-			option.ZeroValue = getZeroValue(option)
+			option.OneofType = oneofType.Type.Message.Name
 
 			oneofField.Options = append(oneofField.Options, option)
 		}
@@ -523,23 +523,6 @@ func createDecodeTypeConversion(f Field) string {
 	return fmt.Sprintf(fType, f.LocalName)
 }
 
-func getZeroValue(f Field) string {
-	if f.IsEnum && !f.Repeated {
-		return "0"
-	}
-	if !f.IsBaseType || f.Repeated || f.StarExpr {
-		return "nil"
-	}
-	switch f.GoType {
-	case "bool":
-		return "false"
-	case "string":
-		return "\"\""
-	default:
-		return "0"
-	}
-}
-
 // The 'basePath' of a path is the section from the start of the string till
 // the first '{' character.
 func basePath(path string) string {
diff --git a/gengokit/httptransport/types.go b/gengokit/httptransport/types.go
index 5eaf9a4..9996e6e 100644
--- a/gengokit/httptransport/types.go
+++ b/gengokit/httptransport/types.go
@@ -76,7 +76,9 @@ type Field struct {
 	// a slice of it's type.
 	Repeated bool
 
-	ZeroValue string
+	// OneofType is the Go type which wraps the field if it is a member of a
+	// oneof
+	OneofType string
 }
 
 // OneofField contains the distillation of information within an []*svcdef.Field
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 665ca6b..871887b 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -671,17 +671,17 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 			{{- if eq $oneof.Location "query"}}
 				{{- range $option := $oneof.Options }}
 					{{if or (not $option.IsBaseType) $option.Repeated}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							tmp, err = json.Marshal(req.Get{{$option.Name}}())
+						if val, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
+							tmp, err = json.Marshal(val.{{GoName $option.Name}})
 							if err != nil {
-								return errors.Wrap(err, "failed to marshal req.Get{{$option.Name}}()")
+								return errors.Wrap(err, "failed to marshal req.{{$option.Name}}")
 							}
 							strval = string(tmp)
 							values.Add("{{$option.QueryParamName}}", strval)
 						}
 					{{else}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							values.Add("{{$option.QueryParamName}}", fmt.Sprint(val))
+						if val, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
+							values.Add("{{$option.QueryParamName}}", fmt.Sprint(val.{{GoName $option.Name}}))
 						}
 					{{- end }}
 				{{- end }}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 1b6a79e..bf0480d 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.057kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.084kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.985kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xe4\xb8\x75\xf0\xb3\xf4\x2b\xce\x0a\x7b\x91\xfa\xab\x56\xed\xf7\x01\x5f\xe0\xf4\xa0\x02\xcc\xf4\xf4\x5e\xec\x9d\x99\xf6\x74\x8f\x17\xc8\x60\x30\x66\x95\x58\x55\x74\xeb\x36\x24\xd5\xdd\xe5\x4a\xbd\xe4\xc5\x01\x12\x20\x40\x9e\xf2\x10\x18\x79\xca\x6b\x90\xe7\xfc\x1e\x6f\xe0\x7f\x11\x1c\xde\x44\x55\x49\x75\x99\x5d\x07\x41\x90\x01\xbc\x5d\xa2\xc8\xc3\xc3\xc3\xc3\x73\xa7\x3c\x1e\xc3\x65\x95\x51\x58\xd0\x92\x72\x22\x69\x06\xd3\x15\x4c\x09\xaf\xca\x14\x9e\xbf\x82\x97\xaf\x6e\xe1\xea\xf9\xb7\xb7\x69\x38\x1e\xc3\x6b\xca\x9b\xb2\x64\xe5\x42\x77\x80\x07\x96\xe7\x50\xdd\x53\xfe\xc0\x99\xa4\x20\x97\x4c\xc0\x9c\xe5\x54\x75\xfe\x15\xe5\x82\x55\xe5\x05\xac\xd7\xa9\xf9\xbd\xd9\x78\x2f\xe0\x39\x91\xd4\x7f\x8b\xcf\x9b\x4d\x18\xd6\x64\x76\x47\x16\x14\xdf\x5c\xeb\x9f\x2f\x49\xa1\xde\x8c\xc7\x70\x6b\xe7\x80\x59\x55\x4a\xc2\x4a\x01\x05\x95\xcb\x2a\x13\x20\x2b\x28\xc8\x1d\x05\x56\x66\xec\x9e\x65\x0d\xc9\x81\x96\x59\x5d\xb1\x52\x0a\x98\xf3\xaa\x00\x41\xf9\x3d\x9b\x51\x31\x42\x34\x38\xfd\xd0\x50\x21\x81\x94\x19\x70\x2a\xea\xaa\x14\x14\xe4\xaa\xa6\x0a\x12\x76\xc5\x15\x55\x82\xb6\x50\x46\x40\x04\x3c\xd0\x3c\xc7\xbf\xb4\x9c\x55\x19\xe5\x02\x01\x20\xbc\x8c\x9a\xe7\x79\xc5\xcd\x40\x05\x6d\xa4\x1a\x08\x52\x6a\x0e\x55\xc3\x41\x34\x75\x5d\x71\xa4\xb4\xe4\xa4\x14\xf8\x1b\x31\x63\x24\x67\xbf\x25\x92\x55\x25\x42\x9b\x57\xbc\x20\x52\xa4\x61\xc8\x0a\xd5\x23\x0e\x83\x68\xba\x92\x54\x44\x61\x10\xe1\xda\xe9\xa3\xc4\x9f\x0a\x0d\x56\x2e\xc6\xbf\x11\x55\x89\x0d\xf3\x42\xb5\xb3\x4a\xff\x77\xcc\xaa\x46\xb2\x1c\x1f\x4a\x2a\xc7\x4b\x29\x6b\xfb\xbb\xe1\xaa\x59\x48\x3e\xab\xca\x7b\xf3\x93\x95\x0b\x11\x85\x61\x10\x2d\x98\x5c\x36\xd3\x74\x56\x15\xe3\x45\x75\x7e\xc7\xe4\x18\xff\x67\x69\x11\x85\x01\x29\x57\xf5\x14\xa2\x45\x55\x2d\x72\x9a\x2e\xaa\x9c\x94\x8b\xb4\xe2\x8b\x71\xcd\x2b\x59\x4d\x9b\xf9\x58\xad\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x5a\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa5\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x4e\xdb\x33\x91\xe3\x3c\xd5\x62\xd9\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x93\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x0e\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\x7b\xe2\x07\xce\x97\xeb\x60\xd1\xf1\xe6\xc2\xb3\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\x25\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x48\x9f\xf4\xa9\xac\x98\x6e\xe9\x2c\x33\x7d\x49\x1f\x6e\x28\xbf\xa7\x5c\xbf\xd4\xd2\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x33\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xf6\xd3\xb2\xa1\x96\xf1\xd8\x55\x89\xa4\xf4\x69\xa9\xc6\xb5\x42\x26\x7d\x6e\x7e\x62\xb3\x11\x1f\xe9\x15\xfe\xc5\x06\x7b\xa4\xd3\x1b\xf5\x03\x9b\xbc\x63\x9a\xde\xda\xdf\xf8\xa2\x3d\x7e\xd8\x9b\x95\x8b\x5f\x91\xbc\x51\xeb\xf6\xe4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x75\x12\xd8\xa6\xc3\xff\xc6\x4a\x83\x7e\x5b\x02\x41\x7d\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x9a\x9a\x37\xe5\x0c\xa9\x20\x40\x2e\x89\x84\x92\xa2\x96\xaa\xa0\xaa\x95\x6d\x00\x15\x8e\xad\x29\x3f\xb7\x6a\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x55\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\xe2\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa6\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x95\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\xa8\xee\x29\x20\xb3\xb1\x19\x75\x56\x85\x42\x91\x22\x9c\x76\x05\x9a\x07\x80\xb5\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe5\x8c\x96\xb2\x4b\x5d\x59\xc1\xac\xca\x73\x3a\x93\x9e\x81\x92\xaf\x60\x56\x95\x1a\x1c\xcd\x3c\x73\x85\x95\xb8\x20\x04\x28\x58\xb9\xc8\xb5\x61\xa2\x69\xc5\x90\xc2\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x93\x19\x1d\xda\x09\x04\xe6\x26\xeb\x37\x92\x1a\x9c\xac\xb5\x4a\x94\xb1\x80\x07\xf0\xd2\xac\x67\x56\x15\x53\x56\x2a\x3a\x15\x06\x45\x6f\x63\x47\xc6\x94\x92\x0d\x2f\x81\x49\xa4\x2b\x22\x38\x23\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x3b\x04\x5d\x87\xc1\x9b\xd2\xad\x8f\x66\xeb\x75\x6a\x47\x68\x13\xd0\x48\x82\xf5\x9a\x93\x72\x41\xe1\x53\x06\x17\x13\x70\x7d\x5e\xe8\x2d\x43\x39\xb6\x5e\x7f\xca\xcc\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\xb5\x70\xd5\xd6\xa5\x6d\x16\x87\xa7\x40\x06\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x4c\x3e\x82\xb1\xd2\x50\x35\xe0\xdf\x11\x32\xcc\xd9\x7a\xfd\x75\x85\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xdb\x55\x6d\x17\x98\x40\xbc\xd5\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc3\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\x13\x28\x59\x8e\x10\x02\xb3\x5f\x25\xcb\x15\x90\x30\xd8\x84\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\xbe\x20\x77\x1e\x79\xc2\xf5\x5a\x1d\xe4\x4f\x25\x45\x44\xd3\x0d\x76\x3e\x07\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xdd\xed\x86\xb5\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xbd\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\x76\xb7\x0d\xf7\xcd\xb6\xde\xeb\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\xa7\x79\x7e\xf5\x38\xa3\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x2f\x58\x96\xe5\xf4\x81\x70\xed\x05\xbe\x11\xd6\x2f\x44\x27\xa8\xae\xf3\x15\x8a\x18\x14\x9b\x12\x81\x17\xae\xb7\xf2\xba\xe8\x3d\xe5\x2b\xb7\x6d\x78\x5e\x50\x82\x18\xb7\x4d\xc1\x7b\x55\xa3\xd6\x20\x79\xbe\x1a\xb9\x7e\x02\x66\xa4\x84\x29\x55\xba\x86\x66\x38\x6c\xba\x82\x12\xc9\x2e\x2b\x6c\xa7\x8f\xb3\xbc\xc9\x68\xa6\xbd\xc0\x29\x45\x14\x70\xcd\x35\xcd\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x6e\x24\x91\x8d\x88\x46\x10\x5d\xb3\x72\x11\x25\xee\xdc\x9f\x39\x82\x24\x83\xe3\x1d\x86\x1e\x55\x46\x2d\x36\x69\x9a\x0a\x65\x16\x28\xe6\x61\xa5\x69\xbe\x98\x40\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xf5\x06\xd9\x6b\xfb\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\x58\x6f\x46\x61\xe0\x9b\x91\x9b\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x1c\xde\x8f\xa0\xba\xc3\xd7\x16\xb1\xb7\xf4\xf1\xdd\x13\xf8\xa4\xba\x43\x6c\x83\xa0\x26\x25\x9b\xc5\xad\x85\x37\x8f\xa3\x2b\x0b\xc2\xae\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe3\x9d\x4f\xa9\x4c\x7a\x44\x2a\x49\x0c\x3f\x67\x34\xa7\x92\xc6\x16\x03\xf5\xae\x5d\x00\x2b\x67\x2d\xfa\xb6\x8f\x42\x0e\xcd\x40\x56\xce\x8e\x26\x19\x9b\x2b\x60\x93\x09\x74\x88\xa7\x60\x05\x41\xaf\x50\x85\x89\xb7\x86\xb8\xb7\x0b\xae\x22\xd8\x6c\x13\x5f\x1f\xc0\xef\xc8\x94\xe6\x34\x6b\xf9\x42\x07\x53\x16\x54\x5a\x2e\x46\xce\x77\x74\x54\xcc\xfc\xb0\xa4\xa5\x7b\x5b\x79\x8c\x6b\x80\x69\xfe\x1b\xe9\xf3\x66\x8e\x44\xa3\x3b\x83\x8e\xd0\x10\x1d\xe6\x61\x33\x34\x6f\x38\x9b\x29\x83\xab\x5d\x06\x3c\x2c\xd9\x6c\xa9\x4e\x93\xa0\x65\x1f\x0a\x46\xa7\x9b\xd1\xd6\xa2\xa9\xb8\xd1\xe8\xbb\xab\xc2\xe3\x12\x6b\x56\x1e\xed\xca\xe3\x1e\x11\x1d\x0e\xad\xeb\xa3\xa5\xd4\x0e\x52\x23\xb3\x4e\x45\x71\x4e\x67\x94\xdd\xa3\x90\xa2\x7a\x89\xd5\xbc\xb3\xee\x14\x6e\x28\x75\x60\x3c\x28\xea\x85\x35\x49\x0d\xc2\x57\x8f\x88\x28\xf2\x66\x46\x25\x61\xb9\x40\x8b\xd9\x1e\x2c\x04\x62\xcd\x5e\x92\x33\xb9\x4a\xf7\x09\x93\xce\xda\xe3\xe2\x47\x50\xf4\x7f\x25\xce\xff\x44\x89\xd3\x19\x36\x82\x93\x04\xd0\xf1\x41\x8b\x63\xdd\xd1\xaf\x5f\x5f\x5f\xe2\x3a\x29\x3f\xd9\x1f\x45\xd3\xce\x1b\x8e\x21\x5c\xd1\x1a\x08\x6e\xa7\x80\xdc\x13\x96\x93\x69\x4e\xb5\x2b\xb1\x78\x7d\x7d\x09\x03\x0e\x82\x39\x58\x5d\xc8\xce\x6b\x14\xad\x94\x18\x41\xa5\xec\x09\x81\x27\xa3\x13\x9f\x51\x8c\x4e\xb9\x36\x37\x92\xa1\x89\x70\xbb\x84\xd7\x51\x20\x77\xbc\x7d\x37\x0c\x09\xf9\xb8\xef\xed\x33\x3a\xaf\x38\x8d\x11\xdb\x17\x26\xce\x74\x5b\x19\x8b\x34\x19\xe1\xae\x6d\xcd\x33\x41\x63\x8a\x96\x59\xdc\x69\x76\xeb\x49\xd3\x34\x51\xc1\x8f\xf5\x1a\x6e\xab\xef\xaa\x07\xca\x5b\x46\x44\x52\xe1\xe6\x5a\x73\xf1\x73\xc4\x08\x5f\x52\xbe\x46\xd7\xe9\x20\xf7\xae\xd7\x16\xa6\x63\x39\xe3\xad\x5f\x40\x77\x75\x2e\x7a\x13\x23\x5f\xbb\x1d\xe8\x63\x56\xb4\x52\x82\xe7\x2a\x88\x8e\x64\xf0\x7a\x18\xc3\x59\x75\xb8\x2a\x7b\x3b\x18\x37\x08\x7b\x74\x08\x92\xa6\x29\x0e\x43\x12\x6e\x9d\x01\x94\xc6\xed\xba\xb7\xbd\x6a\x67\xb7\xf7\x6f\xbb\xf3\x01\xb4\xda\xf3\xe0\xfc\x09\x3c\xd9\x21\x5a\x03\x6c\x11\xdb\xb4\x7b\x26\xbf\x71\xc4\x4c\x28\x03\x45\xb0\x87\xaa\xac\xda\x55\x1f\xbf\xe0\x83\x18\xab\xa3\x17\x0b\x38\x6b\xa7\x4a\x5a\xf0\x07\x3c\x64\x74\xa0\x7e\x5a\x17\xf9\x3d\x7a\x51\x75\xc7\xc9\x1a\x22\xa8\x5a\x8c\xe2\x2d\xdf\xfb\x3a\xd1\x65\xae\x3f\xd2\x5b\x36\x84\xd6\x07\xe0\x30\x95\xc7\x63\xd8\x77\x56\x80\xa1\x8c\x74\xac\xa1\x82\xc9\xa9\x1e\x60\x7a\x7c\x85\xdb\xa4\x02\x4a\x98\xfc\xa1\x5c\x0a\x1d\x6f\x32\x72\x75\x87\x46\xce\x2d\xc6\xa8\x0f\x06\xb5\xf8\x79\x56\x15\x84\x95\xfb\x3a\xa7\x70\xcd\x59\x41\x38\xcb\x57\x36\x0e\xe6\x07\xcd\xb4\x98\xde\xb7\x8e\xf8\xfd\x2e\x8f\xe0\x5a\x5e\xd3\x0f\x2d\x4f\x2a\xff\xdc\x7b\xea\x46\x48\x94\x47\x6e\xc6\x1c\xe3\x91\xbb\x9d\xfc\xb0\x67\x9b\xae\xca\xa3\xb7\x69\xaf\xc4\xea\xdd\x27\x3d\xc2\x76\x19\xda\xa8\xc3\x5b\x60\xa6\x50\x1b\xb6\x67\x5b\xeb\x7c\x75\xd4\x3e\xed\x5d\x48\xdf\x46\xf5\x85\x4c\xf6\xed\x94\xa8\x71\xab\xec\xa8\x23\xce\x91\xb7\x59\xa2\xee\xdb\xad\x6f\x68\x8e\xf1\xf7\x50\x33\x5a\xaf\x76\xed\x97\x43\x45\x06\x36\xdf\x93\xbe\x78\x9e\x6c\x77\x40\x7c\x51\x9a\xde\x8d\xe0\xbe\x35\x08\x0b\x67\xc9\xde\x77\x62\x35\x2a\x6d\x4d\xe1\x8e\xae\xd4\x76\x67\x68\xf2\x4e\x2b\xb9\x44\x1a\xdb\x59\x4c\xc2\x17\xe2\xbb\xc4\x78\x27\xd8\x35\xcf\x21\xc7\xfd\x32\x50\x88\xf1\xc9\x54\x5c\xf6\x92\x94\x55\xc9\x66\x24\xff\x86\x92\x8c\xf2\x5f\xd0\x95\x75\x5d\x70\x22\x51\x99\x68\xb1\x34\x9e\xa0\x05\x31\x9b\x51\x1b\x24\xa1\x4c\x2e\x29\x37\x33\xe3\x7b\x24\xc5\xc4\xad\xf5\x7b\x26\x97\x2a\x61\x81\x24\x1a\xa9\xb5\xbe\xfd\xf2\x5d\x72\xb0\xe3\x00\x76\xf1\x5d\xd2\x42\x30\x4e\x81\xd9\xbe\x99\x7c\x54\x1a\xd9\x1a\x86\xfb\xff\xa9\x7d\xd4\x21\xe9\x93\x8d\xcd\x97\xf4\xc1\x1b\xad\xa7\x57\xe9\x09\x13\x63\x82\x29\x99\xdd\xe1\xf6\xac\xec\x99\xd1\xb1\x7c\x5c\x6b\x49\x55\x6a\x24\x85\x6f\x25\xee\xa3\xc9\x0a\x18\x76\x65\x53\x86\x2e\x9d\xdd\x02\x13\xf4\x96\x15\x64\x8c\xe4\x3a\x32\x9e\x13\x49\x39\xcc\x30\x6d\x85\x3e\x3a\xf5\x61\x6a\x06\xed\x60\x17\xe3\x6b\xad\x45\x53\x8d\xef\x65\x55\x96\x7b\x2c\x56\xdd\xc9\x5a\xac\xf1\x80\xc9\xea\x1f\x39\x34\x14\xb6\x83\xb2\xc1\xae\x07\xe3\x07\x58\x5b\xd1\x16\xdc\x13\xde\x27\x51\xac\x3d\xb7\xeb\x88\x86\xc1\xba\xdf\x78\x74\x43\x26\xbb\xe6\xa3\x21\x86\xe2\x3a\x5c\xbf\xf5\x37\x3d\x9c\xbe\x6a\xf2\xdc\x3a\x42\xad\x3b\x7a\xfd\xcc\x6f\xbb\x2a\x0f\x18\x96\xcf\xe9\x21\xc3\xf2\x80\x34\xd2\x71\xb6\xa0\x35\xc0\xf1\x31\x71\x8b\x8f\x95\x1b\xa9\xa8\x6b\xac\x50\x27\xa8\xac\x14\xb3\x5d\xc5\x41\x2b\x1c\xce\x8d\x1d\xee\x30\xb5\x63\x2f\x30\xcd\xb1\x87\xc4\xa3\x76\xde\x60\x63\x45\x26\x8a\x4a\x5c\x39\x98\x73\xf1\xe3\x8d\x90\x3d\xda\xed\x39\x3d\x46\xbb\xed\xd7\x57\xc7\x1a\x21\x46\x93\x0c\x68\x37\x7d\xb4\xcd\xd9\x7b\x4e\x4f\xd4\x6e\xb8\x98\xd7\x0a\x99\x23\xd5\x1b\x76\x75\xa6\x08\x2a\xdd\x93\x14\x5c\x9d\xaf\xfa\x34\x9c\xbf\x6d\x3f\xde\x28\x19\xb6\x1d\xaf\xca\x23\x6c\xc7\xc3\x1b\xe2\x99\x90\x7b\x76\x78\xaf\xed\xd8\xd9\xb5\x7d\xeb\xe8\x37\x49\xcc\x12\x8f\xdb\xb2\x53\xb3\x39\xfb\x6d\x47\x83\x85\xd2\xa9\xe2\xb6\xf2\xcd\x11\x7d\x52\xfa\xe4\xb9\x99\x07\xcf\x89\x66\xd4\x3d\x50\xe2\x3b\xba\x12\xf0\xf6\x9d\x8d\xf1\x1d\x80\x77\x54\x36\xac\xc8\xe0\xec\x90\x29\xa4\x54\x41\x4d\x18\x6f\x27\x0f\x03\x1b\xf1\xbb\x6b\x0d\x24\x85\xde\xda\x84\xbf\xee\x6d\xb4\x6f\x26\x1f\x53\x45\x93\xf8\x2e\x49\x4d\x64\x33\x79\x02\x36\xea\x17\x68\xc0\x2e\xe0\xa1\x1e\xb5\x39\xe2\xe2\x5b\x28\x44\x11\xa6\x7a\xd7\xb1\xbd\xce\x8a\x0c\xe3\x66\x76\x01\x3f\xaf\x58\x19\x9f\x15\xd9\xa8\x6d\xba\xc6\x31\xb1\x1a\x89\x51\x93\xc4\x82\x33\x94\x41\xdb\xc4\x04\xcd\xf4\x4e\x1e\x1b\x12\xfb\xe6\xf6\xf6\xda\x78\x0b\xb6\xed\xf0\xbf\x71\x18\xaa\x1c\xbd\xa6\x72\xa9\xd8\x0b\x26\x10\x91\xba\xce\xd9\x4c\x55\xa5\xa8\x42\xbf\x27\x30\x5b\x12\x2e\xa8\x9c\x34\x72\x7e\xfe\xb3\xc8\x45\xd2\x70\x56\xe3\xce\x9a\x54\x3c\x32\xd6\xd2\xb4\xa8\x33\x7b\x38\xc2\x86\xc0\xaa\x12\x6a\x4e\x33\x3a\x67\x25\xcd\x54\x41\x85\x30\x67\x6e\x6b\x9a\x83\x71\xb5\x6e\x3d\x4f\x37\xae\xe6\x57\x7a\x58\x8b\x84\xcd\x21\x55\xf0\x95\xf1\xee\xc9\xad\xad\xd8\x0e\xf2\xce\xdb\x77\xc3\xd0\xd5\xfe\xf7\xbd\x36\xc1\x36\x3d\x07\x5a\xa7\xa2\x13\x6b\xeb\x1f\x74\x85\x92\x5c\x8b\x1b\x1e\x53\xef\x61\x78\xc8\xd3\xb9\xa4\x3c\xde\x7e\x23\x2f\xdb\xad\x8d\xbd\x6d\x4e\x14\xa0\xdd\x55\x1e\x15\xe9\x33\x21\x1f\x15\xd5\x2b\x90\x30\x45\xf3\x88\xd6\xd3\xeb\xaa\x41\x1c\x92\xd0\xb3\x28\x4c\xca\xe2\x62\x32\x48\x66\xd7\x75\x8a\x65\x22\xe5\x02\x01\x9a\x61\xe9\x33\xdd\x64\xc2\xd8\x85\x1d\x17\xa3\xd1\x65\xba\x63\x41\xef\x14\xfe\x0a\x6e\xab\x37\x58\xb0\xb8\xd9\x44\x49\x7a\x4d\xe4\xb2\xd3\x07\x1b\x6e\x69\x51\xa3\x55\xac\x7a\x58\x76\x1a\x28\xff\x52\x01\xc4\x6e\x04\xd1\x60\xb4\x63\xe0\x38\x6b\x0e\x97\xe7\x4d\xa9\x52\x2a\x4e\x3d\xe8\x8e\x7a\x47\xb1\xe3\xd7\x3a\x33\x66\xd5\xb0\x7e\xdd\x17\x4c\x0c\x54\xb2\xa0\x0d\xb2\xf9\x3f\x8d\xd0\x28\x8c\x51\xe5\x33\x8d\x4e\xc1\x29\xbf\x41\x9b\x05\x36\x99\x66\x67\xfc\x1e\xdf\xf3\x11\xfa\x1e\x19\x9d\x93\x26\x97\xa8\xed\x34\x83\xe0\x89\x54\xa1\xc6\x6a\x0e\xdb\xb2\x60\x04\x04\xa6\x55\xa6\xdc\x3f\x94\x0d\x3a\xf5\x85\x4e\x60\xa4\xe6\x89\x9c\xdf\x78\x8f\x52\x16\x41\xa9\xf6\x54\x61\x17\x27\xda\x3b\x21\x20\x54\xaa\x1b\x90\x1e\x08\xea\xff\x7f\xf9\x65\x0a\xdf\x9a\x64\x18\xf6\xf4\x63\xa4\xfa\xdc\x50\xae\x2a\xa9\xb1\x47\xcd\xab\x7b\x86\x8e\xed\x52\xbd\xc1\x2a\x81\x3c\xc7\xdc\xbb\xc2\x56\xe7\x20\xb1\x5f\x6b\x93\xf9\xa0\x11\x8a\x07\x1d\x57\x91\xbe\x20\x5c\x2c\x89\xaa\x00\xb3\xf8\x17\xba\x09\xd3\xf7\xa2\x99\xcd\x28\xcd\x84\xf6\xa4\x7e\x7e\xf3\xea\xa5\x29\xc8\xce\x6c\xf5\xb4\x75\xc5\xd4\x5a\x1d\x3a\x98\x0f\x1d\x5e\x96\xce\xf6\x63\x3d\x3c\x1f\x59\x07\xcf\xad\xac\x7d\xd9\x81\x06\xac\x14\x92\x92\xcc\xd2\x4c\x0b\x49\x5f\x42\xf4\x19\x22\xae\x70\x64\x04\x0f\xba\xde\xad\xcb\x06\xca\x66\xc4\x5d\x1d\xc1\x7b\x3c\x7e\x3e\x49\xb4\xf8\xc1\x94\x63\x4d\xf9\x5a\xed\xe2\x05\xae\xc5\x6e\x28\x5a\x22\x6c\x6e\xa9\x85\x04\xd4\x8a\x16\xbb\xc4\x5d\xda\xb6\x7a\x96\xcd\x01\x5f\x3d\x53\x53\x9a\xa1\x57\x3a\x66\xea\x00\xd9\x71\x48\xee\x38\x79\x62\x67\xc0\x6e\x13\x4f\xe7\x22\xda\x30\x71\xe0\xac\xbb\x1f\x3c\xa4\x9a\x6d\xe2\x24\xbd\xa1\x32\x8e\x8c\x20\x3c\xbf\x5d\xd5\x34\x1a\xf9\x2a\x4f\x2f\x60\x69\x99\xcc\xc7\xbf\x2b\x1e\x2c\x1f\xb6\xeb\x40\xab\xc3\x33\x39\x2c\x0c\xd3\x53\xc4\x8a\xb0\xc1\x36\x2e\x77\xa3\x9e\x9e\xe9\xd7\x54\xc6\x77\x36\x35\xb8\x09\x03\x75\x34\x2e\x74\x85\x6a\xaa\xd9\xe1\x5b\x34\x1d\x4b\x92\x7b\x4a\x42\xe1\x2e\x66\x7b\xb0\xf6\xd8\xac\x45\x5c\x01\x9f\x80\x98\x19\xc8\xf8\xda\x38\x8d\x0f\xa9\x62\x0a\x83\x31\x76\x4c\x5c\x63\x8c\xd4\x4e\x50\xde\xb4\x7c\xa7\x7d\x19\x1e\x4f\x9b\x39\xbc\x7d\x87\x45\xb7\x89\xe1\xf5\x75\xa8\x6c\xb5\x07\xf0\x59\xc8\xc5\xb8\x2d\x9f\xbd\x29\xcd\xce\x22\x84\x11\x7c\xfe\x90\x3c\xd9\x8e\x81\x6b\x2b\x45\xb0\xdf\x52\x98\xc0\xcf\xfe\xef\x9f\xff\x99\x66\xa1\x9c\x96\x38\x26\x81\xbf\xd0\xef\xb0\x6b\x80\x68\x4c\x60\xda\xcc\xdf\x5e\x60\xe3\x3b\xa3\xe6\x8c\xac\xc4\x0a\x12\x45\xb7\x79\x1c\x59\xe9\x00\xb8\x28\x95\xca\xbd\xc0\xf0\x15\x66\x72\x6b\x34\x77\xa0\xac\xca\x73\xe4\x2b\x67\xc8\x63\xc7\x68\x84\xc0\x4d\x9a\xd6\x40\x35\x45\xc0\x2f\xe9\x43\xfc\xa0\xcf\x85\xa2\x91\x92\xa1\xfe\xda\x6d\xe1\xc0\x3a\x0c\x54\x2f\x7c\x46\xf9\xf2\x6b\x9c\xe5\xc2\x08\xd0\x5f\x1b\x71\x8e\xfb\x6e\x7a\x11\xc9\xc4\x9c\xe1\x5d\x91\x25\x75\xd2\x50\x09\x52\x6f\x73\x5b\x37\x43\x00\x53\xd7\x3a\xec\xdd\x96\x63\x6a\xb7\x53\x9d\x5c\xf2\x26\x75\xa8\x2a\xb4\xf0\x3e\x82\x9d\x0a\x67\x0a\x03\x2b\x7b\x01\xfc\x7c\xbe\x33\xc9\x2d\x8f\xc4\xcb\x16\x68\xe2\xc9\xbc\x38\x81\x6e\x8d\xdc\x32\x6d\x67\x18\x18\xdd\x1e\x2b\x6c\x34\x67\xa7\x03\xc2\x20\x15\x76\xe2\xe7\xdb\x11\x86\x83\x36\x89\x17\x93\x3a\x60\x94\xb8\xa0\xc4\x5e\xed\xbf\xed\xe4\x2a\xec\xfb\x13\x24\x2a\x8f\xaa\x6f\xf7\xe0\x18\x14\x7e\xe7\x46\xd7\xf8\xfe\xab\x9d\xe7\x9a\x70\x5a\x4a\xe3\x13\x3a\x3e\x55\x95\x67\xa8\x8e\x10\x2b\xdb\xaa\x20\x23\x07\x1f\x8a\xbf\x07\x5e\x88\x62\xef\xb2\x7a\x7d\x5e\x38\x33\x0a\x46\x75\x19\xf6\x77\x83\x8c\xce\x29\x07\x9e\xa2\xd4\x4e\x2f\x31\x50\x89\x02\x48\x49\x0c\xf4\x85\x5b\xf7\x77\x6b\xad\x06\x32\x4a\x6e\x34\x82\xf0\xc0\xbb\x84\x9b\x29\xd8\x7f\x4d\x49\xf6\x34\xcf\x63\x0d\xfc\xb8\xa2\x46\x5b\xc5\x3f\x47\x85\x37\x82\xc8\x48\x02\x8e\xca\xd6\x1a\x3c\xb8\x32\x4b\xce\xc8\x48\xea\x2d\x41\xf4\xa5\x5a\x5b\xd0\x58\xa1\x86\xae\xd1\xc5\x04\xdc\xad\x95\x56\xdc\x19\x3b\x4f\x75\x0f\x9e\xe6\x79\xf5\x70\x4d\xb8\x64\x24\xc7\xa8\x9a\xe4\x8d\x31\x0a\x9f\x33\x31\x23\x3c\x7b\x53\xaa\x1b\x46\x17\xed\x1b\x5b\xd9\x81\x4b\x9f\x80\x3f\xe1\x8e\x48\xc5\xdc\xe2\x8e\x50\xed\x17\xab\xc3\x82\xb5\x57\xb4\x1a\x34\x3a\xc4\x74\x07\x76\xdd\x43\x56\x43\xbd\x8f\x92\xb9\x9a\x20\x81\xa7\x10\x9f\x91\xcc\xb0\x83\x79\x87\x08\xb4\x68\x39\x6f\x1d\x3d\xca\x6b\xc2\x49\x21\xac\xbb\xf2\x2b\xc2\x45\xcc\x13\x53\x4c\xd3\xbe\x47\xdf\xfe\x43\x43\xf9\xaa\xed\xce\xd3\x37\xaf\xbf\x4b\x7f\x89\x8d\xb1\x1d\xe0\x75\x09\x7d\x1f\x46\x17\xb2\x5e\x4c\x5a\xae\x55\x17\x2e\x8c\x03\xa3\x4a\x61\x4a\xdb\x2d\xfd\xae\xd2\x86\x35\x44\x6a\x91\xba\x0f\xc6\x59\x15\x94\xf4\x6b\x5a\xaa\x49\xdd\x6e\xa2\x77\xd3\x09\xea\xba\x5f\xfb\x51\x78\x55\xd2\x6a\xbe\x83\x07\xfd\xb0\x8b\x87\x5a\xd6\x8f\x41\xc4\x1d\xab\xcf\x39\xfd\xd0\x26\xac\x8d\xd3\xa2\x22\xc9\xb6\x6b\x1b\x19\xec\x71\x88\x7a\x25\xe6\x50\xaa\x52\xcb\x47\x61\xbd\x03\xa7\xd7\x89\x50\xf2\x73\xdb\x1b\xd0\xbe\x11\x3f\x21\x0d\xd9\x83\x60\x9f\xec\xeb\xb5\xad\x87\x32\x93\xce\x44\x1a\x12\x14\x2f\x76\xc4\xc4\xb6\x90\x70\xb2\xe0\x8d\xa0\xd7\x28\x60\x50\x5e\x0a\x5f\x7c\xbc\x11\xf4\xaa\x6c\x8a\x97\x4d\x31\xa5\x5c\x5c\xb4\x2f\xae\x0a\x26\xdf\x94\x75\x55\x37\xe8\x12\x67\x4e\xac\x6c\xc2\x8e\x3c\x6d\x71\xb3\xe8\xb8\xd2\xf4\x34\x56\xa8\xa6\x2f\xa8\x10\x64\x41\x93\x7d\xc5\x0b\x96\x0d\xde\x8f\x8c\xb4\x72\xe6\xa4\xb2\xa4\xbc\x5e\x7e\x26\xd5\xd5\x2f\x0a\x63\x0c\xf4\xc5\x50\xfa\xe3\x88\x3b\x5a\x68\x28\xa5\xda\xda\xee\xd6\x14\x57\xc2\x6e\x5f\x12\x15\x01\xef\x26\x50\x97\x44\xc0\x92\x64\x7a\xec\x50\xca\x54\x25\xea\x32\x2c\xd3\x64\x18\x15\x6e\xf9\xdb\xbf\xea\x2b\x97\x54\x43\xd1\x86\x94\x48\xad\xd2\x77\x99\x5a\x64\x66\x8c\xb6\xba\xb0\xa2\x45\xc7\x38\xa1\xe8\x8d\x8b\x4a\x03\xe9\xe6\x65\xf7\x66\x64\xf7\xe6\x59\xef\x46\x8e\x42\x9e\xa7\xb2\x77\xc8\x16\xfe\x2a\x25\xbb\x0b\x03\xe5\x33\x92\xbb\x29\x69\x7b\xa5\x6a\xb6\x44\x59\x96\xaa\x37\x24\x17\x15\x90\x2c\x33\x67\x58\x49\x7b\x68\x78\x1e\xee\x4f\x0c\x47\xa6\xeb\x39\x5e\x3c\x1e\x19\x21\x7e\x4d\xe4\x32\x39\x34\xd0\xed\x0a\x16\xe2\x23\xcf\xa1\x10\x89\x92\x8f\xce\x20\x23\x08\x93\x34\xb1\x6d\x27\x64\x90\xbd\xd1\x6d\x88\xb5\x27\x81\x5c\x02\xf6\x34\xd2\x0b\x72\x76\x8f\x56\x2b\x91\x86\x6a\x45\x25\x55\x7c\x01\xc3\x07\xa4\xc4\x7b\x5b\xdf\x63\x11\x7e\xad\x6f\x88\xe9\x36\x94\x93\xb3\xaa\xa0\xfa\xe2\x42\x3b\x49\xc6\xc4\x0c\xef\xdd\xaf\x40\xac\x84\xa4\xc5\x08\x84\xaa\x07\xcf\xd9\x1d\xcd\x57\x96\xe9\x90\x8d\x20\x5a\x56\x42\x5e\x20\x47\x47\x46\x80\x76\x56\x10\xbb\xa9\x6c\x49\xf1\x60\xe4\xf6\xf4\xfc\x32\x9b\xc3\x27\x96\xe5\xbe\x21\xe2\x9a\xd3\x39\x7b\x74\x33\x8e\x20\xc2\x53\x19\x69\x8f\xdc\xe1\x31\xd1\xcd\x17\xe3\x71\x04\xff\xc7\x51\x02\xb9\x32\x68\x9c\x14\x6c\x78\x9e\x5e\xa3\x75\xe2\xa0\x1d\x5d\xa9\x85\xc6\x45\x13\x9a\x9b\xbb\xe8\x59\xf6\x78\x1c\x26\xbf\xaa\xaf\x38\x44\x2f\x2b\xbd\x91\x5e\x78\x5b\x97\xd8\x2b\x82\xe8\x60\x10\x02\x7a\xa8\xf8\xdd\x08\x74\xc8\x1c\x8c\xa6\x47\xc7\x0f\xef\xe0\x71\x6d\x6f\xea\xb7\x0c\x49\x18\xb5\x61\x5b\x65\x2e\x1c\xef\x0b\x05\xeb\x35\xde\xe8\xdd\x76\x7e\x0c\xd2\xf8\x56\x45\x00\xad\xb1\x81\x02\x95\x95\x19\x7d\xdc\x1d\xf1\xa5\x1d\x63\x92\xf9\xdb\x5e\xc5\xbe\x5c\x3e\x1a\x1b\xea\xbf\xc1\x9e\x71\x3d\xb7\x79\xbd\x84\xbe\xc9\xd5\x0f\x86\x8d\x8d\x05\x19\xcc\xaa\x7a\xf5\xe6\xf5\x77\x71\x33\x02\xbf\xff\x33\x22\x28\x8a\x0f\x0c\x1f\xdb\xae\xad\x75\xb0\x8b\x55\xd7\x2e\xed\xc6\x88\x0d\x65\x7a\xd2\xfe\x3b\x39\xfd\x60\x3b\xad\x6f\x6d\xdb\x76\x37\x3b\xbf\xdb\x9f\x4e\x5c\xf5\x66\xfa\xf7\xee\x3b\x9c\xff\xa9\x76\x7e\x28\x90\x6e\x2a\x09\xb6\x89\x68\x5f\x9b\x92\x88\xbd\xeb\xf5\x2a\x0c\x94\xe4\xb1\xfb\x38\x25\x82\xc2\x19\x9e\xe1\x37\xaf\xbf\x1b\xa9\xe4\x92\x51\xad\x89\x6b\xc6\xf3\x5b\xa2\x5d\x70\x31\x81\x33\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\xe3\x1b\x13\x60\xb8\x94\x8f\x36\x35\x7a\x83\xf6\xed\x4c\x95\xb8\x37\xdc\x84\x6a\x90\x1d\xed\xc1\x95\x15\xd4\x4d\x9e\xab\x76\xa3\xe7\x68\x86\x16\x86\x80\xaa\x41\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xc2\x9a\xb0\xbe\x03\x8a\xb6\x82\x09\x77\xa4\x00\x2f\x2b\x69\xae\xec\x22\x48\x84\xa5\x24\xc5\x92\xdc\x53\xb0\x9f\xe2\xd8\x6f\x92\xa8\x79\xa6\x2a\x5b\x65\x6e\xad\xa9\x6b\x39\x28\xf9\x2d\x6a\x78\x01\xda\xc4\xf7\x89\x2d\x4b\x52\xb6\x07\xae\x6a\xe5\x02\xd5\x2e\xb5\xe7\xdf\xa9\xa3\xdc\x29\x5c\x93\x5a\xee\xd2\x4e\xa7\x93\xbd\x3b\x23\xc3\xfa\xc0\x8f\xf8\xf4\x74\x32\x19\xb7\x3d\x77\x2e\x8f\xb0\x0e\x7f\xb2\x84\xb2\xb3\x78\x4c\xe4\xd7\xcf\x23\x3b\x9d\xa1\xf3\xbe\x09\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x41\x81\xbd\x1d\x92\xea\x15\x36\x7b\x23\x52\xdb\xfe\x95\x09\x47\x69\x6b\x6c\x3b\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x5a\xdf\x67\x3b\x24\x65\x9a\xd1\xf1\xd5\x66\x9e\xc9\x92\xb8\x37\x68\x50\x13\x15\x0e\xf8\x7f\x5f\x7e\xe9\xa7\x8b\x46\xf0\x60\x72\x22\x2a\xe0\x59\x73\x8a\x46\x0e\x51\xe7\x81\x94\x0a\x96\x32\x0a\x14\xa3\x12\x29\xf1\xa3\x0a\x78\x7e\xf4\x2a\xfc\xf3\x67\x02\xd8\x50\x68\x17\xa6\xc5\xd1\x22\x71\x30\x64\x66\xcb\x43\x7a\x42\x66\xbd\x64\xdf\x1f\x31\xd3\x93\x9e\x1e\x32\x3b\x25\x02\x36\xc1\x2e\xe9\xd5\xab\xaf\x06\x83\x60\x18\xc5\x6e\x63\xe3\xc8\x18\x8a\x04\x80\x74\x5c\xf9\x51\xaf\x2d\xf3\xa7\x0f\x16\x06\xd4\x7a\xe2\x69\x0e\xa8\x01\xa7\xe1\x71\x2f\x17\x01\x9f\x74\x12\x1f\xaf\x7e\xb1\x77\x8a\x79\xbc\x9d\x89\x48\x46\x10\x79\x3c\x73\x01\x5f\x7c\x96\x7d\x11\x8d\x3a\x73\xb8\xb9\xd1\x1c\xc1\x05\x1f\xe2\xe6\xf0\xe4\xb8\xde\x60\x58\x6f\x28\xaa\xb7\x09\x8f\x8f\xe9\x89\x3a\x79\x72\x78\x13\x7c\xa2\xd8\x05\x9b\x4e\x9f\xb7\x95\xcc\x41\x37\x2e\xe3\x0b\xa0\xab\xf2\x44\x01\xe4\x7a\x7a\x86\xc1\x8e\x49\x70\x6e\x44\xd5\x11\x26\xd4\xde\x58\x90\x8b\x9e\x87\xce\xdb\x35\xe1\x20\x20\xc7\x07\xcc\xd5\xe7\x25\xf0\xe4\xdf\x13\xce\xaa\x46\x00\xaa\x13\xb4\xc2\x50\x2f\x07\xe3\xf1\xae\xf2\x8d\xd1\x8e\x18\x81\x0a\x98\xe9\x9c\x36\x1e\x92\xc4\x8a\x82\x23\x96\xb5\x5f\x16\xa8\x2e\x03\x25\x64\x2e\x74\x84\xdf\x88\xba\x27\x39\xee\x45\x14\x99\xc8\xa4\x6e\xda\xff\x79\x80\x2d\x62\x98\xd9\x34\x93\xdb\x08\x27\xa7\x1f\xc2\x70\x4b\x7d\x0d\xba\xc6\xdb\xfd\x86\x7d\x6f\x1d\x95\xb8\x51\x32\x1b\xef\xd0\xcb\x25\x06\x7e\x49\x41\x25\xa6\x6d\xf0\xa2\xb7\x5c\x22\xda\xd6\x93\x53\x35\x54\x36\xa9\xb4\x75\x49\x54\x50\x15\x1e\xea\xc4\x3a\x71\x96\x1b\xdd\xee\x82\x9d\xb6\xe3\x66\xfb\xaa\x28\x9a\x8c\xd1\x58\xe1\xdf\xe7\xed\x21\x2e\xfb\x93\x07\xdb\x32\x08\xe5\x5c\xd5\xe4\x59\xf9\x85\x6c\x4f\xaf\x5e\xe5\x67\x1f\x22\x6d\x7c\x5a\x09\xaa\xa9\xf2\x9a\x3c\x18\x23\xb3\xb1\xbf\xdd\x3b\xf7\x02\x7f\x6c\x51\x4e\x31\x5e\x97\x74\xaa\xe0\xa2\x37\x62\x8d\x02\x4e\x16\xb5\x49\xcf\x9a\x0d\x96\x45\xdd\x25\xe7\x50\xec\x1a\x2c\x1d\xcf\xe1\xb8\xb0\x31\x9b\xab\x03\x61\xba\xbd\xa6\x35\xc5\x18\xa3\x1d\xf6\xad\x78\x46\x3c\x89\xda\x42\x8e\x2f\xed\x47\xf6\x4c\xcf\xaf\x2b\xec\x05\x91\xdd\xfe\x28\xb1\x23\xf4\x52\xdf\x46\x2e\x44\xfd\x4b\x17\x8f\x37\x75\xd8\xef\x34\x0b\xa7\xae\xc7\x25\x29\xa8\x29\xdc\x6e\x67\xa5\xb9\x70\xcf\xc6\xe0\xf3\xae\x58\x0c\x8d\xb7\xf9\x10\x83\x46\xfa\x34\xcb\xe2\x3d\xa8\x8c\xbc\x2f\x53\xc5\xf7\x18\xf3\x6a\xf3\x26\x1d\x6e\x44\x9c\x10\x23\x24\x46\xc5\x21\x46\x7d\xb9\x43\xb4\x64\x9b\xae\x16\x7f\x45\x77\xf3\xee\x46\x12\x7e\xf5\x58\xf3\xcd\x86\xcd\x07\xc9\xe0\x18\x1a\x5a\xcf\x2a\x08\x02\x59\x98\x0b\x6c\x5b\x75\x20\x43\x60\xcc\x7a\x7a\x0e\x49\xef\x39\x31\xc7\x64\x4e\x58\xae\x0b\x75\xec\x29\x19\x82\x1f\x75\x09\x66\x44\x9e\x95\x10\xb1\x2c\xea\x24\x3c\x69\x37\x34\x84\x64\x1f\xd5\x60\xd3\xa1\x89\xde\x16\x4b\xa0\xf5\x7a\x7c\xf6\x87\x7f\xf9\xeb\x1f\x7e\xff\x4f\x3f\xfc\xe3\xbf\xfe\xf0\x77\xbf\xfb\xe3\x3f\xfc\xcd\x7f\xfc\xdb\xbf\xff\xe1\xf7\x7f\xfb\xc3\x3f\xff\xee\x8f\xbf\xfb\xfb\xb3\x31\x9c\xef\xdf\x13\x47\xb0\xa1\x25\xc3\x27\x13\x9f\x88\x1f\xc1\x66\x67\x43\xa0\x77\xd8\xcf\x5f\xd9\x47\x4c\x74\x68\x9e\x2e\x19\xdb\xba\xc1\xad\x27\xf3\xb0\xd9\x74\x45\x52\x85\x99\xab\xa1\x5c\xd6\xae\x5c\x52\xdd\x87\xe5\x52\x0b\xb6\x76\x7a\x43\x0f\x31\x36\x1b\x74\xf6\xcd\x1d\xc1\x4a\xbd\xed\x9e\x41\xd3\xb6\x7d\x08\xd1\x8e\x35\x1a\x19\x29\xf3\x35\x95\xeb\xb5\xed\x6b\xae\xa2\x26\x4f\x54\x8f\x4f\x26\xd0\xbe\xfa\x4b\xca\x2b\xe5\x0c\x7b\xc2\x65\xef\x41\xec\x05\x6c\x48\x3e\x74\x16\x4f\x3e\x8d\xbd\x93\xd8\xe3\xe8\x58\x68\xdf\x91\xdc\x61\x29\x03\xec\xd0\xa9\xec\x67\xcf\x9f\x92\xb8\x47\xe3\xe5\xf1\x3a\xe2\xb7\x83\xa0\xcf\xd2\x5b\x8f\x9d\x27\xf3\xa0\xa2\xaf\xad\xee\x57\x13\xc2\x04\x0c\x3a\xda\x6c\x8c\x95\x99\x64\xf8\xba\xf4\xec\x35\x15\xb3\x8c\x16\x54\xea\xef\x27\xfa\xf6\x00\x5a\x9f\x5d\x73\x40\x56\xaf\xa9\xfc\x58\x0b\xf0\x18\xb3\xe0\xfc\x40\x32\xb9\x9b\xd4\x1e\x9f\xc1\xab\x32\x5f\xa9\x6f\x31\x21\xc2\xaa\xb7\x30\x49\x2d\xb1\x44\xab\x09\xa6\x2e\x62\x84\x63\x31\xcf\x80\xb7\x12\x15\x65\x2b\xb9\xf4\x0b\x3d\xab\x82\x49\xb4\x29\xb2\x46\x7d\x26\x06\x7d\x53\x56\x52\x21\xe0\x6c\x6c\x66\x54\xcb\xef\x15\x4d\x07\x2c\x83\x56\x62\x75\xf6\xcf\x1c\x8c\x6d\xb7\xef\xc5\x61\xa7\xaf\xf5\xfa\x06\xf3\xb4\xc3\x89\xda\xc1\x4c\xad\x3a\x22\x78\x4f\xc2\x19\xae\x0e\x43\x5f\x52\x7c\xbc\xfd\xaa\xdd\x28\xe5\xa6\x63\x68\x05\x45\x10\x7c\x76\x1f\x8d\x40\x51\xb6\xb5\x62\x9f\x61\x07\x17\x78\x70\xdf\xca\x8c\xb1\x12\x50\x60\x59\xf8\xb3\x66\x3e\xa7\x3c\x46\x5c\xfd\x62\x66\xf0\xcb\x05\x8c\x0f\x1a\xec\x7e\x40\xec\xe0\xe7\x43\xdc\xf7\x44\x8f\xcd\xc7\xbd\x7c\x7a\x7b\xf3\x31\x77\x25\x6c\x41\x19\x8e\x07\x1d\xc3\x74\xcf\xe6\xfe\x24\xe2\x82\x88\x96\x23\x10\xfc\x5e\x3f\xbb\xef\xc3\x19\xaf\x6d\xf7\xd3\x74\xc7\xde\x81\xec\xbb\xcd\x78\xd3\x4c\x1d\x03\x20\x0e\xa8\xae\x1b\x7a\xd3\x4c\xc5\x8c\xb3\x29\x8d\xb7\x6e\x2f\xea\x41\xfe\x17\x31\xd0\x93\xeb\xeb\x83\x22\x99\xdf\xfb\x3d\x15\x10\xfa\x42\x2c\xd4\x62\x93\x83\x9c\x65\x38\x04\x9d\xc9\x7e\xc4\xbd\xdb\x81\x1e\x1b\xac\xd7\x9d\xcf\x49\x90\x3b\xea\x6d\xd8\xb1\x1f\x6c\xc1\x21\x47\x7c\xb0\xa5\x85\x7c\xf0\x62\x49\xe7\x63\xb5\xa9\x23\xb0\x29\xd7\x4f\xfc\xbd\x1e\xf8\x50\xcb\x7e\x08\xa6\xec\xe0\xbf\xdf\xf7\x5a\xda\x75\x1d\xbc\x29\x6a\x98\xd4\xed\xf1\x05\x74\xd7\x8c\xf7\x2b\xdc\xb2\x4f\xfa\x48\x0b\x6e\x94\xd7\xc3\xe8\xab\x91\xb9\x67\x7e\x55\xf6\xf6\xf1\xf2\x6a\x6d\x8f\xad\x3a\x9e\x53\xbf\xe2\xe2\xed\xb2\x57\xca\x7f\xfa\x57\x5c\x3c\x38\xae\x28\xf8\x30\x71\xbd\xe5\x01\xc0\x59\x97\xba\x2d\x69\x77\x3e\xca\x62\x66\xda\xce\x25\x0c\xcd\xe3\x45\xb3\x91\x64\xeb\x75\x97\xec\xfd\x59\x95\x42\x2c\x8c\x00\x7c\x21\x16\xc3\x41\xec\xdd\xfa\xce\xbe\xeb\x8d\x7b\xaa\xc4\x0b\xb1\x48\x9f\x2b\xbd\xd7\x5f\xd7\xd8\x97\x86\xb7\xbc\x3c\x70\x57\xd2\x90\xc7\x44\x3a\xdb\xc2\xb4\x1e\x7e\xd9\x0e\x46\xaa\x05\x1f\x51\x98\x86\x81\x32\xa8\xa6\xbf\xc1\x82\x0b\x13\x6b\x14\x6e\xbf\xec\x77\x31\x5e\x90\x72\xa5\xf3\x2b\x98\x75\xb3\x05\x18\xfa\xf3\x7a\x0d\xc6\x05\x30\xc9\x81\xe8\xa1\x00\x2c\x05\xc3\x14\x9b\xb9\xbd\x63\x84\xda\x20\xde\x03\x99\x30\x9c\xd7\x98\xed\x23\x28\x67\x1d\x0d\xe6\x72\x00\xfd\xc1\x47\x4b\xe7\x0e\x0f\xea\xf9\x71\x09\xfe\xc4\x66\x22\x9c\xa1\x05\x9b\x9c\x52\x43\x83\x2b\x32\xf1\x68\xdb\x76\x42\x0d\x8d\x37\xfa\xc0\x57\x18\x70\xf9\xff\xd5\x5f\x61\x68\xb1\xdb\xb5\x22\x06\x15\xd0\x75\x33\xcd\x99\x58\x52\x7e\x4a\x89\x4c\xff\x27\x18\x8e\xb5\x3e\x3e\xe6\x1b\x0c\xb6\x6c\x63\xdf\xb0\xc9\x16\x0f\xbd\xa4\x0f\x6e\x75\xa6\x72\xc3\x7d\x8c\x21\x08\x8e\x30\x68\x42\xaf\x38\xa3\x73\x14\xfc\x8a\x8c\xe7\xf4\x90\xce\xd8\x2d\xc5\xd8\xae\xc4\xe8\x54\xbe\x3a\x81\x62\x4f\x46\x6f\xdd\x45\xaf\xc8\x35\xae\x94\x87\xc8\x56\x5d\xc4\xe9\x5f\x58\xc0\x85\x0d\xa5\x90\x87\xc4\xbe\xcb\x1c\x0f\x50\xa5\x57\xf6\x1d\xf7\x85\x05\xab\x17\xfe\x64\xdf\x52\x18\x40\xf9\x08\x55\x05\xc3\xba\x0a\x0b\xe6\x8e\x50\x43\x94\x73\x3b\xdf\x8e\x3a\x1a\x8f\x61\x57\x23\x8d\xc7\xb0\xf1\xa0\xdb\xc1\xa9\xaa\x9a\xb7\x83\x3f\xff\x7c\xf7\x5d\x8a\x79\x4b\xf5\x1d\xc7\xf7\xcc\xdc\x05\x7b\x1f\x0d\x4c\x63\x73\xb9\xbb\x40\x6c\xc9\xae\x45\xa4\x27\xff\xd9\xfb\x85\x88\x63\x95\x72\x5f\x62\x72\xbf\x56\xee\xff\xa0\x92\xcf\xc3\x46\x37\xf7\xab\x66\x93\x23\xdb\xa3\x99\xbb\x97\x6c\xdc\xff\x03\x8e\xa9\xd3\x31\x11\x12\xe5\x3a\x0c\x28\x6b\xdc\x6a\x2b\xe9\x5f\x88\xc5\xb6\xae\x3e\x57\xb8\xfe\x34\x0a\xfb\x58\x1b\xeb\x50\x76\xd0\x92\x7c\x50\x41\xbb\x89\xd4\x89\x70\xe0\x12\x6f\x1b\xfe\x73\x00\x6e\x26\x66\x0d\xb1\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xe3\x38\x76\xf8\x59\xfa\x14\x6f\x84\xf9\x23\xd5\xcf\x25\xcf\x2f\x40\x82\x4d\x0d\x2a\x40\x77\x75\xcd\x4c\xef\x4e\x77\xd7\x76\x55\xef\x1c\x1a\x8d\x5e\xda\xa2\x6d\x6e\xc9\x92\x9a\xa4\x5c\xe5\x75\x7c\xc9\x65\x03\x24\x40\x80\x9c\x72\x08\x16\x39\xe5\x1a\xe4\x9c\xcf\xb3\x13\xec\xb7\x08\x1e\xff\x89\xb2\x25\xd9\xee\x99\x0d\x82\x20\x0d\xec\x94\x45\x91\x8f\x8f\x8f\x8f\xef\x3f\xb5\xe3\x31\x5c\x95\x19\x85\x39\x2d\x28\x27\x92\x66\x30\x59\xc3\x84\xf0\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x0e\xae\x9f\x3d\xbf\x4b\xc3\xf1\x18\x5e\x53\x5e\x17\x05\x2b\xe6\xba\x03\x3c\xb0\x3c\x87\x72\x45\xf9\x03\x67\x92\x82\x5c\x30\x01\x33\x96\x53\xd5\xf9\x57\x94\x0b\x56\x16\x17\xb0\xd9\xa4\xe6\xf7\x76\xeb\xbd\x80\x67\x44\x52\xff\x2d\x3e\x6f\xb7\x61\x58\x91\xe9\x3d\x99\x53\x7c\x73\xa3\x7f\xbe\x24\x4b\xf5\x66\x3c\x86\x3b\x3b\x07\x4c\xcb\x42\x12\x56\x08\x58\x52\xb9\x28\x33\x01\xb2\x84\x25\xb9\xa7\xc0\x8a\x8c\xad\x58\x56\x93\x1c\x68\x91\x55\x25\x2b\xa4\x80\x19\x2f\x97\x20\x28\x5f\xb1\x29\x15\x23\x44\x83\xd3\x0f\x35\x15\x12\x48\x91\x01\xa7\xa2\x2a\x0b\x41\x41\xae\x2b\xaa\x20\x61\x57\x5c\x51\x29\x68\x03\x65\x04\x44\xc0\x03\xcd\x73\xfc\x4b\x8b\x69\x99\x51\x2e\x10\x00\xc2\xcb\xa8\x79\x9e\x95\xdc\x0c\x54\xd0\x46\xaa\x81\x20\xa5\x66\x50\xd6\x1c\x44\x5d\x55\x25\x47\x4a\x4b\x4e\x0a\x81\xbf\x11\x33\x46\x72\xf6\x5b\x22\x59\x59\x20\xb4\x59\xc9\x97\x44\x8a\x34\x0c\xd9\x52\xf5\x88\xc3\x20\x9a\xac\x25\x15\x51\x18\x44\xb8\x76\xfa\x28\xf1\xa7\x42\x83\x15\xf3\xf1\x6f\x44\x59\x60\xc3\x6c\xa9\xda\x59\xa9\xff\x3b\x66\x65\x2d\x59\x8e\x0f\x05\x95\xe3\x85\x94\x95\xfd\x5d\x73\xd5\x2c\x24\x9f\x96\xc5\xca\xfc\x64\xc5\x5c\x44\x61\x18\x44\x73\x26\x17\xf5\x24\x9d\x96\xcb\xf1\xbc\x3c\xbf\x67\x72\x8c\xff\xb3\xb4\x88\xc2\x80\x14\xeb\x6a\x02\xd1\xbc\x2c\xe7\x39\x4d\xe7\x65\x4e\x8a\x79\x5a\xf2\xf9\xb8\xe2\xa5\x2c\x27\xf5\x6c\xac\xd6\x3f\xbe\x2f\xca\x87\x62\xac\x7a\x47\x61\x90\xd5\x5c\x2d\xf2\x84\xa1\xcd\x90\x28\x0c\xe8\xb2\x92\xa7\xcc\x6b\xfa\x47\x61\x30\x63\x34\xcf\x96\x44\xdc\x9f\x30\xda\x1b\x13\x85\x81\x90\xbc\x9e\xca\x13\x86\xdb\x01\x51\x18\x48\xb6\xa4\x42\x92\x65\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x9c\x54\x15\xe5\xe2\x04\x00\xcd\x90\xfd\x2d\xe5\x2c\xcf\xc9\x78\x59\x3f\x46\xed\x37\xd5\xfd\x7c\x4c\x39\x2f\xb9\xe2\xb4\x81\x89\x1c\xe7\xa9\x16\xcb\x7e\x03\x03\xd4\x0f\x44\x64\xb3\x39\x07\x36\x03\xfa\x01\xd2\xab\xb2\x98\xb1\x79\x7a\xe7\x4e\x42\x44\xf2\x3c\x82\xa8\x20\x52\x44\xb0\xdd\xb6\x71\xc3\xd6\x73\x56\xaa\xbf\xe9\x1c\x39\x1c\x41\xd1\x22\xdb\x6e\x8f\x82\x3a\xe7\xd5\xd4\x42\xdd\xc3\x53\xbd\xec\x7d\x33\x5e\x52\x49\x32\x22\xc9\xee\xa4\x47\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\x34\xc4\xc6\x5f\x27\x4c\x81\xdd\x5b\x38\x26\x61\x18\xae\x08\x87\x38\x0c\xde\xc3\x25\xcc\x96\x32\xbd\xad\x38\x2b\xa4\x7e\x56\x02\x2c\xbd\x2a\x97\x15\xe1\x54\x37\x19\xe9\x93\x3e\x91\x25\xd3\x2d\xad\x65\xa6\x2f\xe9\xc3\x2d\xe5\x2b\xca\xf5\x4b\x2d\xcd\xd2\x97\x65\x75\x95\x97\xa2\x69\x4d\xaf\xca\x6a\xad\x1f\x34\xf3\xa6\xdf\x73\x52\x85\xc1\x78\x0c\x66\x3f\x2d\x1b\x6a\x19\x8f\x5d\x95\x48\x4a\x9f\x14\x6a\x5c\x23\x64\xd2\x67\xe6\x27\x36\x1b\xf1\x91\x5e\xe3\x5f\x6c\xb0\x47\x3a\xbd\x55\x3f\xb0\xc9\x3b\xa6\xe9\x9d\xfd\x8d\x2f\x9a\xe3\x87\xbd\x59\x31\xff\x15\xc9\x6b\xb5\x6e\x4f\xae\xa4\x5f\xe3\xef\x17\x44\xdc\x87\x49\x18\x8e\xcf\x8e\xfa\x07\xd7\x56\x27\x81\x6d\x3a\xfc\x6f\xac\x34\xe8\xf3\x02\x08\xea\x9b\x15\xe5\x23\x60\xf2\x0b\x01\xb5\xa0\xb3\x3a\x57\x6a\x6a\x56\x17\x53\xa4\x82\x00\xb9\x20\x12\x0a\x8a\x5a\xaa\x84\xb2\x52\xb6\x01\x94\x38\xb6\xa2\xfc\xdc\xaa\x01\x04\x38\x21\x82\x89\x14\xbe\x2e\x39\xd0\x47\xb2\xac\x72\x3a\x82\x75\x59\xc3\x92\xcd\x17\x12\x2a\x22\x50\x45\x7a\x08\xcb\x12\x88\x9b\x48\xcf\x53\xf1\x32\xab\xa7\x54\x20\x38\x52\x28\x0e\x48\xbf\x25\x45\x96\x23\x8e\x0f\x4c\x2e\x80\x92\xe9\xc2\x68\x7a\x88\xed\xec\x09\x3c\x30\x4e\x33\xa8\x2b\x44\x92\x80\xa8\xe8\x94\xcd\xd8\x14\x2a\x22\x17\x29\xc4\xcf\x25\x02\x64\x02\x2a\x5e\x4e\xc8\x24\x5f\x03\x81\x25\x13\x52\x5b\x09\x90\x51\xc1\xe6\x05\x0e\x65\xc5\xaa\xbc\x47\x75\x4f\x01\x99\x8d\x4d\xa9\xb3\x2a\x14\x8a\x14\xe1\x34\x2b\xd0\x3c\x00\xac\xa1\x64\x9a\x84\xe3\xb1\xa3\xee\x34\x67\xb4\x90\x6d\xea\xca\x12\xa6\x65\x9e\xd3\xa9\xf4\x0c\x94\x7c\x0d\xd3\xb2\xd0\xe0\x68\xe6\x99\x2b\xac\xc0\x05\x21\x40\xc1\x8a\x79\xae\x0d\x13\x4d\x2b\x86\x14\x5e\x52\xc4\xc3\xc7\x97\x15\x92\xf2\x19\x99\xd2\xbe\x9d\x40\x60\x6e\xb2\x6e\x23\xa9\xc6\xc9\x1a\xab\x44\x19\x0b\x78\x00\xaf\xcc\x7a\xa6\xe5\x72\xc2\x0a\x45\xa7\xa5\x41\xd1\xdb\xd8\x91\x31\xa5\x64\xcd\x0b\x60\x12\xe9\x8a\x08\x4e\x49\x9e\x53\x8e\x16\x13\xb1\xc8\xa6\xa1\x5a\xce\x1e\x41\x37\x61\xf0\xa6\x70\xeb\xa3\xd9\x66\x93\xda\x11\xda\x04\x34\x92\x60\xb3\xe1\xa4\x98\x53\xf8\x94\xc1\xc5\x25\xb8\x3e\x2f\xf4\x96\xa1\x1c\xdb\x6c\x3e\x65\x66\x8c\x9d\x05\x00\xdc\x52\x53\xdb\x18\x6e\x36\x5a\xb8\x6a\xeb\xd2\x36\x8b\xc3\x53\x20\x03\x43\xec\x2d\x22\x01\x6f\xd2\x78\x2a\x1f\xc1\x58\x69\xa8\x1a\xf0\xef\x08\x19\xe6\x6c\xb3\xf9\xa6\x44\xc4\xe0\x53\x96\xbe\xd6\x26\xe8\xdd\xba\xb2\x0b\x4c\x20\xde\xe9\xa1\x0d\x53\xaf\xcb\x48\x0b\xb8\x04\x36\x61\x60\xed\x56\xd5\x86\x88\xd2\xb4\x63\xe5\x88\x0c\x4e\x9e\x84\x01\x2a\x2b\xce\xe1\x93\x4b\x28\x58\x8e\x10\x02\xb3\x5f\x05\xcb\x15\x90\x30\xd8\x86\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x75\xe4\x44\x62\xbe\x20\xf7\x1e\x79\xc2\xcd\x46\x1d\xe4\x4f\x25\x45\x44\xd3\x2d\x76\x3e\x07\x9f\xca\x9f\x4a\xda\x47\x68\x84\xd5\xb5\x32\x81\x44\x97\xb4\x93\x4d\x92\xfd\xed\x86\x8d\x5b\x1c\xee\x5f\xf7\x2e\x59\xc7\xc0\x9d\xa8\xcd\x36\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xca\xed\x9d\xf0\xf7\x0e\x51\x53\xa8\x24\x61\xd0\xb1\x6b\xfb\xdb\x86\xfb\x66\x5b\x57\x7a\x3b\x02\x64\xeb\x46\x37\xfb\x7b\x83\xca\xf1\x49\x9e\x5f\x3f\x4e\x69\x25\x95\x9e\x12\x5a\xc4\x3a\x4a\x29\x0d\x85\x2e\x8b\x39\x9b\xf6\x85\x00\xb5\x8d\x04\xa1\x78\x36\x81\x23\xf5\x0b\x96\x65\x39\x7d\x20\x5c\x7b\x81\x6f\x84\xf5\x0b\xd1\x09\xaa\xaa\x7c\x8d\x22\x06\xc5\xa6\x44\xe0\x4b\xd7\x5b\x79\x5d\x74\x45\xf9\xda\x6d\x1b\x9e\x17\x94\x20\xc6\x6d\x53\xf0\x5e\x55\xa8\x35\x48\x9e\xaf\x47\xae\x9f\x80\x29\x29\x60\x42\x95\xae\xa1\x19\x0e\x9b\xac\xa1\x40\xb2\xcb\x12\xdb\xe9\xe3\x34\xaf\x33\x9a\x69\x2f\x70\x42\x11\x05\x5c\x73\x45\xb3\x74\x8f\x1a\x71\x83\xd3\x08\xa2\x5b\x49\x64\x2d\xa2\x11\x44\x37\xac\x98\x47\x89\x3b\xf7\x67\x8e\x20\x49\xef\x78\x87\xa1\x47\x95\x51\x83\x4d\x9a\xa6\x42\x99\x05\x8a\x79\x58\x61\x9a\x2f\x2e\x61\x49\xaa\xb7\xfa\xd5\x3b\x4d\xfe\xcd\x16\xd9\x6b\xf7\xc0\x74\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\xd8\x6c\x47\x61\xe0\x9b\x91\xdb\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x0c\xde\x8f\xa0\xbc\xc7\xd7\x16\xb1\xb7\xf4\xf1\xdd\x57\xf0\x49\x79\x8f\xd8\x06\x41\x45\x0a\x36\x8d\x1b\x0b\x6f\x16\x47\xd7\x16\x84\x5d\x37\x7c\xf1\x99\xf8\x02\xb2\x92\x0a\x28\x4a\x09\xf4\x91\x09\xf9\x15\x08\x4a\xfd\x8d\x77\x3e\xa5\x32\xe9\x11\xa9\x24\x31\xfc\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\xbb\x66\x01\xac\x98\x36\xe8\xdb\x3e\x0a\x39\x34\x03\x59\x31\x3d\x9a\x64\x6c\xa6\x80\x5d\x5e\x42\x8b\x78\x0a\x56\x10\x74\x0a\x55\xb8\xf4\xd6\x10\x77\x76\xc1\x55\x04\xdb\x5d\xe2\xeb\x03\xf8\x1d\x99\xd0\x9c\x66\x0d\x5f\xe8\x60\xca\x9c\x4a\xcb\xc5\xc8\xf9\x8e\x8e\x8a\x99\x1f\x16\xb4\x70\x6f\x4b\x8f\x71\x0d\x30\xcd\x7f\x23\x7d\xde\xcc\x91\xa8\x75\x67\xd0\x11\x1a\xa2\xc3\x3c\x6c\x8a\xe6\x0d\x67\x53\x65\x70\x35\xcb\x80\x87\x05\x9b\x2e\xd4\x69\x12\xb4\xe8\x42\xc1\xe8\x74\x33\xda\x5a\x34\x25\x37\x1a\x7d\x7f\x55\x78\x5c\x62\xcd\xca\xa3\x7d\x79\xdc\x21\xa2\xc3\xbe\x75\x7d\xb4\x94\xda\x43\x6a\x64\xd6\xa9\x28\xce\xe9\x94\xb2\x15\x0a\x29\xaa\x97\x58\xce\x5a\xeb\x4e\xe1\x96\x52\x07\xc6\x83\xa2\x5e\x58\x93\xd4\x20\x7c\xfd\x88\x88\x22\x6f\x66\x54\x12\x96\x0b\xb4\x98\xed\xc1\x42\x20\xd6\xec\x25\x39\x93\xeb\x74\x48\x98\xb4\xd6\x1e\x2f\x7f\x04\x45\xff\x4f\xe2\xfc\x6f\x94\x38\xad\x61\x23\x38\x49\x00\x1d\x1f\xb4\x38\xd6\x1d\xfd\xe6\xf5\xcd\x15\xae\x93\xf2\x93\xfd\x51\x34\xed\xbc\xe1\x18\xc2\x15\x8d\x81\xe0\x76\x0a\xc8\x8a\xb0\x9c\x4c\x72\xaa\x5d\x89\xf9\xeb\x9b\x2b\xe8\x71\x10\xcc\xc1\x6a\x43\x76\x5e\xa3\x68\xa4\xc4\x08\x4a\x65\x4f\x08\x3c\x19\xad\xf8\x8c\x62\x74\xca\xb5\xb9\x91\xf4\x4d\x84\xdb\x25\xbc\x8e\x02\xb9\xe3\xed\xbb\x7e\x48\xc8\xc7\x5d\x6f\x9f\xd2\x59\xc9\x69\x8c\xd8\xbe\x30\x71\xa6\xbb\xd2\x58\xa4\xc9\x08\x77\x6d\x67\x9e\x4b\x34\xa6\x68\x91\xc5\xad\x66\xb7\x9e\x34\x4d\x13\x15\xfc\xd8\x6c\xe0\xae\xfc\xae\x7c\xa0\xbc\x61\x44\x24\x15\x6e\xae\x35\x17\x3f\x47\x8c\xf0\x25\xe5\x1b\x74\x9d\x0e\x72\xef\x66\x63\x61\x3a\x96\x33\xde\xfa\x05\xb4\x57\xe7\xa2\x37\x31\xf2\xb5\xdb\x81\x2e\x66\x45\x2b\x25\x78\xa6\x82\xe8\x48\x06\xaf\x87\x31\x9c\x55\x87\xeb\xa2\xb3\x83\x71\x83\xb0\x47\x8b\x20\x69\x9a\xe2\x30\x24\xe1\xce\x19\x40\x69\xdc\xac\x7b\xd7\xab\x76\x76\x7b\xf7\xb6\x3b\x1f\x40\xab\x3d\x0f\xce\x9f\xc0\x93\xed\xa3\x35\xc0\x0e\xb1\x4d\xbb\x67\xf2\x1b\x47\xcc\x84\x32\x50\x04\x7b\xa8\xca\xb2\x59\xf5\xf1\x0b\x3e\x88\xb1\x3a\x7a\xb1\x80\xb3\x66\xaa\xa4\x01\x7f\xc0\x43\x46\x07\xea\xa7\x75\x91\xdf\xa3\x17\x55\xb5\x9c\xac\x3e\x82\xaa\xc5\x28\xde\xf2\xbd\xaf\x13\x5d\xe6\xea\x23\xbd\x65\x43\x68\x7d\x00\x0e\x53\x79\x3c\x86\xa1\xb3\x02\x0c\x65\xa4\x63\x0d\x15\x4c\x4e\xf5\x00\xd3\xe3\x6b\xdc\x26\x15\x50\xc2\xe4\x0f\xe5\x52\xe8\x78\x93\x91\xab\x7b\x34\x72\x6e\x31\x46\x7d\x30\xa8\xc5\xcf\xb3\x72\x49\x58\x31\xd4\x39\x85\x1b\xce\x96\x84\xb3\x7c\x6d\xe3\x60\x7e\xd0\x4c\x8b\xe9\xa1\x75\xc4\xef\xf7\x79\x04\xd7\xf2\x9a\x7e\x68\x78\x52\xf9\xe7\xde\x53\x3b\x42\xa2\x3c\x72\x33\xe6\x18\x8f\xdc\xed\xe4\x87\x81\x6d\xba\x2e\x8e\xde\xa6\x41\x89\xd5\xb9\x4f\x7a\x84\xed\xd2\xb7\x51\x87\xb7\xc0\x4c\xa1\x36\x6c\x60\x5b\xab\x7c\x7d\xd4\x3e\x0d\x2e\xa4\x6b\xa3\xba\x42\x26\x43\x3b\x25\x2a\xdc\x2a\x3b\xea\x88\x73\xe4\x6d\x96\xa8\xba\x76\xeb\x5b\x9a\x63\xfc\x3d\xd4\x8c\xd6\xa9\x5d\xbb\xe5\xd0\x32\x03\x9b\xef\x49\x5f\x3c\x4b\x76\x3b\x20\xbe\x28\x4d\xef\x47\xb0\x6a\x0c\xc2\xa5\xb3\x64\x57\xad\x58\x8d\x4a\x5b\x53\xb8\xa7\x6b\xb5\xdd\x19\x9a\xbc\x93\x52\x2e\x90\xc6\x76\x16\x93\xf0\x85\xf8\x3e\x31\xde\x09\x76\xcd\x73\xc8\x71\xbf\x0c\x14\x62\x7c\x32\x15\x97\xbd\x22\x45\x59\xb0\x29\xc9\xbf\xa5\x24\xa3\xfc\x17\x74\x6d\x5d\x17\x9c\x48\x94\x26\x5a\x2c\x8d\x27\x68\x41\x4c\xa7\xd4\x06\x49\x28\x93\x0b\xca\xcd\xcc\xf8\x1e\x49\x71\xe9\xd6\xfa\x3d\x93\x0b\x95\xb0\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\xb1\x07\xbb\xf8\x3e\x69\x20\x18\xa7\xc0\x6c\xdf\x54\x3e\x2a\x8d\x6c\x0d\xc3\xe1\x7f\x6a\x1f\x75\x48\xfa\x64\x63\xf3\x25\x7d\xf0\x46\xeb\xe9\x55\x7a\xc2\xc4\x98\x60\x42\xa6\xf7\xb8\x3d\x6b\x7b\x66\x74\x2c\x1f\xd7\x5a\x50\x95\x1a\x49\xe1\xb9\xc4\x7d\x34\x59\x01\xc3\xae\x6c\xc2\xd0\xa5\xb3\x5b\x60\x82\xde\xb2\x84\x8c\x91\x5c\x47\xc6\x73\x22\x29\x87\x29\xa6\xad\xd0\x47\xa7\x3e\x4c\xcd\xa0\x2d\xec\x62\x7c\xad\xb5\x68\xaa\xf1\xbd\x2a\x8b\x62\xc0\x62\xd5\x9d\xac\xc5\x1a\xf7\x98\xac\xfe\x91\x43\x43\x61\x37\x28\x1b\xec\x7b\x30\x7e\x80\xb5\x11\x6d\xc1\x8a\xf0\x2e\x89\x62\xed\xb9\x7d\x47\x34\x0c\x36\xdd\xc6\xa3\x1b\x72\xb9\x6f\x3e\x1a\x62\x28\xae\xc3\xf5\x5b\x7f\xd3\xc3\xe9\xeb\x3a\xcf\xad\x23\xd4\xb8\xa3\x37\x4f\xfd\xb6\xeb\xe2\x80\x61\xf9\x8c\x1e\x32\x2c\x0f\x48\x23\x1d\x67\x0b\x1a\x03\x1c\x1f\x13\xb7\xf8\x58\xb9\x91\x8a\xba\xc6\x0a\x75\x82\xca\x4a\x31\xdb\x55\x1c\xb4\xc2\xe1\xdc\xd8\xe1\x0e\x53\x3b\xf6\x02\xd3\x1c\x03\x24\x1e\x35\xf3\x06\x5b\x2b\x32\x51\x54\xe2\xca\xc1\x9c\x8b\x1f\x6f\x84\x0c\x68\xb7\x67\xf4\x18\xed\x36\xac\xaf\x8e\x35\x42\x8c\x26\xe9\xd1\x6e\xfa\x68\x9b\xb3\xf7\x8c\x9e\xa8\xdd\x70\x31\xaf\x15\x32\x47\xaa\x37\xec\xea\x4c\x11\x54\xba\x27\x29\xb8\x2a\x5f\x77\x69\x38\x7f\xdb\x7e\xbc\x51\xd2\x6f\x3b\x5e\x17\x47\xd8\x8e\x87\x37\xc4\x33\x21\x07\x76\x78\xd0\x76\x6c\xed\xda\xd0\x3a\xba\x4d\x12\xb3\xc4\xe3\xb6\xec\xd4\x6c\xce\xb0\xed\x68\xb0\x50\x3a\x55\xdc\x95\xbe\x39\xa2\x4f\x4a\x97\x3c\x37\xf3\xe0\x39\xd1\x8c\x3a\x00\x25\xbe\xa7\x6b\x01\x6f\xdf\xd9\x18\xdf\x01\x78\x47\x65\xc3\x96\x19\x9c\x1d\x32\x85\x94\x2a\xa8\x08\xe3\xcd\xe4\x61\x60\x23\x7e\xf7\x8d\x81\xa4\xd0\xdb\x98\xf0\xd7\xca\x46\xfb\xa6\xf2\x31\x55\x34\x89\xef\x93\xd4\x44\x36\x93\xaf\xc0\x46\xfd\x02\x0d\xd8\x05\x3c\xd4\xa3\x36\x47\x5c\x7c\x0b\x85\x28\xc2\x54\xef\x5a\xb6\xd7\xd9\x32\xc3\xb8\x99\x5d\xc0\xcf\x4b\x56\xc4\x67\xcb\x6c\xd4\x34\xdd\xe0\x98\x58\x8d\xc4\xa8\x49\x62\xc1\x19\xca\xa0\x6d\x62\x82\x66\x7a\x27\x8f\x0d\x89\x7d\x7b\x77\x77\x63\xbc\x05\xdb\x76\xf8\xdf\x38\x0c\x55\x8e\x5e\x53\xb9\x50\xec\x05\x97\x10\x91\xaa\xca\xd9\x54\x55\xa5\xa8\x42\xbf\xaf\x60\xba\x20\x5c\x50\x79\x59\xcb\xd9\xf9\xcf\x22\x17\x49\xc3\x59\x8d\x3b\x6b\x52\xf1\xc8\x58\x0b\xd3\xa2\xce\xec\xe1\x08\x1b\x02\x2b\x0b\xa8\x38\xcd\xe8\x8c\x15\x34\x53\x05\x15\xc2\x9c\xb9\x9d\x69\x0e\xc6\xd5\xda\xf5\x3c\xed\xb8\x9a\x5f\xe9\x61\x2d\x12\x36\x83\x54\xc1\x57\xc6\xbb\x27\xb7\x76\x62\x3b\xc8\x3b\x6f\xdf\xf5\x43\x57\xfb\xdf\xf5\xda\x04\xdb\xf4\x1c\x68\x9d\x8a\x56\xac\xad\x7b\xd0\x35\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xfe\x21\x4f\x66\x92\xf2\x78\xf7\x8d\xbc\x6a\xb6\x36\xf6\xb6\x39\x51\x80\xf6\x57\x79\x54\xa4\xcf\x84\x7c\x54\x54\x6f\x89\x84\x59\xd6\x8f\x68\x3d\xbd\x2e\x6b\xc4\x21\x09\x3d\x8b\xc2\xa4\x2c\x2e\x2e\x7b\xc9\xec\xba\x4e\xb0\x4c\xa4\x98\x23\x40\x33\x2c\x7d\xaa\x9b\x4c\x18\x7b\x69\xc7\xc5\x68\x74\x99\xee\x58\xd0\x3b\x81\xbf\x86\xbb\xf2\x0d\x16\x2c\x6e\xb7\x51\x92\xde\x10\xb9\x68\xf5\xc1\x86\x3b\xba\xac\xd0\x2a\x56\x3d\x2c\x3b\xf5\x94\x7f\xa9\x00\x62\x3b\x82\x68\x30\xda\x33\x70\x9c\x35\x87\xcb\xf3\xa6\x54\x29\x15\xa7\x1e\x74\x47\xbd\xa3\xd8\xf1\x1b\x9d\x19\xb3\x6a\x58\xbf\xee\x0a\x26\x06\x2a\x59\xd0\x04\xd9\xfc\x9f\x46\x68\x2c\x8d\x51\xe5\x33\x8d\x4e\xc1\x29\xbf\x41\x9b\x05\x36\x99\x66\x67\xfc\x1e\xdf\xf3\x11\xfa\x1e\x19\x9d\x91\x3a\x97\xa8\xed\x34\x83\xe0\x89\x54\xa1\xc6\x72\x06\xbb\xb2\x60\x04\x04\x26\x65\xa6\xdc\x3f\x94\x0d\x3a\xf5\x85\x4e\x60\xa4\xe6\x89\x9c\xdf\xb8\x42\x29\x8b\xa0\x54\x7b\xaa\xb0\x8b\x13\xed\x9d\x10\x10\x2a\xd5\x0d\x48\x0f\x04\xf5\xe7\x5f\x7e\x99\xc2\x73\x93\x0c\xc3\x9e\x7e\x8c\x54\x9f\x1b\xca\x55\x25\x35\xf6\xa8\x78\xb9\x62\xe8\xd8\x2e\xd4\x1b\xac\x12\xc8\x73\xcc\xbd\x2b\x6c\x75\x0e\x12\xfb\x35\x36\x99\x0f\x1a\xa1\x78\xd0\x71\x15\xe9\x0b\xc2\xc5\x82\xa8\x0a\x30\x8b\xff\x52\x37\x61\xfa\x5e\xd4\xd3\x29\xa5\x99\xd0\x9e\xd4\xcf\x6f\x5f\xbd\x34\x05\xd9\x99\xad\x9e\xb6\xae\x98\x5a\xab\x43\x07\xf3\xa1\xfd\xcb\xd2\xd9\x7e\xac\x87\xe7\x23\xeb\xe0\xb9\x95\x35\x2f\x5b\xd0\x80\x15\x42\x52\x92\x59\x9a\x69\x21\xe9\x4b\x88\x2e\x43\xc4\x15\x8e\x8c\xe0\x41\xd7\xbb\xb5\xd9\x40\xd9\x8c\xb8\xab\x23\x78\x8f\xc7\xcf\x27\x89\x16\x3f\x98\x72\xac\x28\xdf\xa8\x5d\xbc\xc0\xb5\xd8\x0d\x45\x4b\x84\xcd\x2c\xb5\x90\x80\x5a\xd1\x62\x97\xb8\x4d\xdb\x46\xcf\xb2\x19\xe0\xab\xa7\x6a\x4a\x33\xf4\x5a\xc7\x4c\x1d\x20\x3b\x0e\xc9\x1d\x27\x5f\xd9\x19\xb0\xdb\xa5\xa7\x73\x11\x6d\xb8\x74\xe0\xac\xbb\x1f\x3c\xa4\x9a\x6d\xe2\x24\xbd\xa5\x32\x8e\x8c\x20\x3c\xbf\x5b\x57\x34\x1a\xf9\x2a\x4f\x2f\x60\x61\x99\xcc\xc7\xbf\x2d\x1e\x2c\x1f\x36\xeb\x40\xab\xc3\x33\x39\x2c\x0c\xd3\x53\xc4\x8a\xb0\xc1\x2e\x2e\xf7\xa3\x8e\x9e\xe9\x37\x54\xc6\xf7\x36\x35\xb8\x0d\x03\x75\x34\x2e\x74\x85\x6a\xaa\xd9\xe1\x39\x9a\x8e\x05\xc9\x3d\x25\xa1\x70\x17\xd3\x01\xac\x3d\x36\x6b\x10\x57\xc0\x2f\x41\x4c\x0d\x64\x7c\x6d\x9c\xc6\x87\x54\x31\x85\xc1\x18\x3b\x26\xae\x31\x46\x6a\x27\x28\x6f\x1a\xbe\xd3\xbe\x0c\x8f\x27\xf5\x0c\xde\xbe\xc3\xa2\xdb\xc4\xf0\xfa\x26\x54\xb6\xda\x03\xf8\x2c\xe4\x62\xdc\x96\xcf\xde\x14\x66\x67\x11\xc2\x08\x3e\x7f\x48\xbe\xda\x8d\x81\x6b\x2b\x45\xb0\xdf\x52\xb8\x84\x9f\xfd\xff\xbf\xfc\x0b\xcd\x42\x39\x2d\x70\x4c\x02\x7f\xa5\xdf\x61\xd7\x00\xd1\xb8\x84\x49\x3d\x7b\x7b\x81\x8d\xef\x8c\x9a\x33\xb2\x12\x2b\x48\x14\xdd\x66\x71\x64\xa5\x03\xe0\xa2\x54\x2a\xf7\x02\xc3\x57\x98\xc9\xad\xd0\xdc\x81\xa2\x2c\xce\x91\xaf\x9c\x21\x8f\x1d\xa3\x11\x02\x37\x69\x5a\x03\xd5\x14\x01\xbf\xa4\x0f\xf1\x83\x3e\x17\x8a\x46\x4a\x86\xfa\x6b\xb7\x85\x03\x9b\x30\x50\xbd\xf0\x19\xe5\xcb\xaf\x71\x96\x0b\x23\x40\x7f\x6d\xc4\x39\xee\xbb\xe9\x45\x24\x13\x33\x86\x77\x45\x16\xd4\x49\x43\x25\x48\xbd\xcd\x6d\xdc\x0c\x01\x4c\x5d\xeb\xb0\x77\x5b\x8e\xa9\xdd\x4e\x75\x72\xc9\x9b\xd4\xa1\xaa\xd0\xc2\xfb\x08\x76\x2a\x9c\x29\x0c\xac\xec\x05\xf0\xf3\xf9\xce\x24\xb7\x3c\x12\x2f\x1a\xa0\x89\x27\xf3\xe2\x04\xda\x35\x72\x8b\xb4\x99\xa1\x67\x74\x73\xac\xb0\xd1\x9c\x9d\x16\x08\x83\x54\xd8\x8a\x9f\xef\x46\x18\x0e\xda\x24\x5e\x4c\xea\x80\x51\xe2\x82\x12\x83\xda\x7f\xd7\xc9\x55\xd8\x77\x27\x48\x54\x1e\x55\xdf\xee\xc1\x31\x28\xfc\xce\x8d\xae\xf1\xfd\x57\x3b\xcf\x0d\xe1\xb4\x90\xc6\x27\x74\x7c\xaa\x2a\xcf\x50\x1d\x21\x56\xb6\x55\x41\x46\x0e\x3e\x14\x7f\x0f\xbc\x10\xc5\xe0\xb2\x3a\x7d\x5e\x38\x33\x0a\x46\x75\xe9\xf7\x77\x83\x8c\xce\x28\x07\x9e\xa2\xd4\x4e\xaf\x30\x50\x89\x02\x48\x49\x0c\xf4\x85\x1b\xf7\x77\x67\xad\x06\x32\x4a\x6e\x34\x82\xf0\xc0\xbb\x84\x9b\x29\xd8\x7f\x4d\x49\xf6\x24\xcf\x63\x0d\xfc\xb8\xa2\x46\x5b\xc5\x3f\x43\x85\x37\x82\xc8\x48\x02\x8e\xca\xd6\x1a\x3c\xb8\x32\x4b\xce\xc8\x48\xea\x1d\x41\xf4\xa5\x5a\x5b\x50\x5b\xa1\x86\xae\xd1\xc5\x25\xb8\x5b\x2b\x8d\xb8\x33\x76\x9e\xea\x1e\x3c\xc9\xf3\xf2\xe1\x86\x70\xc9\x48\x8e\x51\x35\xc9\x6b\x63\x14\x3e\x63\x62\x4a\x78\xf6\xa6\x50\x37\x8c\x2e\x9a\x37\xb6\xb2\x03\x97\x7e\x09\xfe\x84\x7b\x22\x15\x73\x8b\x7b\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\x6a\xd0\x68\x11\xd3\x1d\xd8\x4d\x07\x59\x0d\xf5\x3e\x4a\xe6\x6a\x82\x04\x9e\x42\x7c\x4a\x32\xc3\x0e\xe6\x1d\x22\xd0\xa0\xe5\xbc\x75\xf4\x28\x6f\x08\x27\x4b\x61\xdd\x95\x5f\x11\x2e\x62\x9e\x98\x62\x9a\xe6\x3d\xfa\xf6\x1f\x6a\xca\xd7\x4d\x77\x9e\xbe\x79\xfd\x5d\xfa\x4b\x6c\x8c\xed\x00\xaf\x4b\xe8\xfb\x30\xba\x90\xf5\xe2\xb2\xe1\x5a\x75\xe1\xc2\x38\x30\xaa\x14\xa6\xb0\xdd\xd2\xef\x4a\x6d\x58\x43\xa4\x16\xa9\xfb\x60\x9c\x55\x41\x49\xbf\xa1\x85\x9a\xd4\xed\x26\x7a\x37\xad\xa0\xae\xfb\x35\x8c\xc2\xab\x82\x96\xb3\x3d\x3c\xe8\x87\x7d\x3c\xd4\xb2\x7e\x0c\x22\xee\x58\x7d\xce\xe9\x87\x26\x61\x6d\x9c\x16\x15\x49\xb6\x5d\x9b\xc8\x60\x87\x43\xd4\x29\x31\xfb\x52\x95\x5a\x3e\x0a\xeb\x1d\x38\xbd\x4e\x84\x92\x9f\xbb\xde\x80\xf6\x8d\xf8\x09\x69\xc8\x0e\x04\xbb\x64\x5f\xa7\x6d\xdd\x97\x99\x74\x26\x52\x9f\xa0\x78\xb1\x27\x26\x76\x85\x84\x93\x05\x6f\x04\xbd\x41\x01\x83\xf2\x52\xf8\xe2\xe3\x8d\xa0\xd7\x45\xbd\x7c\x59\x2f\x27\x94\x8b\x8b\xe6\xc5\xf5\x92\xc9\x37\x45\x55\x56\x35\xba\xc4\x99\x13\x2b\xdb\xb0\x25\x4f\x1b\xdc\x2c\x3a\xae\x34\x3d\x8d\x15\xaa\xe9\x0b\x2a\x04\x99\xd3\x64\xa8\x78\xc1\xb2\xc1\xfb\x91\x91\x56\xce\x9c\x54\x96\x94\xd7\xcb\xcf\xa4\xba\xfa\x45\x61\x8c\x81\xae\x18\x4a\x77\x1c\x71\x4f\x0b\xf5\xa5\x54\x1b\xdb\xdd\x9a\xe2\x4a\xd8\x0d\x25\x51\x11\xf0\x7e\x02\x75\x41\x04\x2c\x48\xa6\xc7\xf6\xa5\x4c\x55\xa2\x2e\xc3\x32\x4d\x86\x51\xe1\x86\xbf\xfd\xab\xbe\x72\x41\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\xa9\x45\x66\xc6\x68\xab\x0b\x2b\x5a\x74\x8c\x13\x8a\xde\xb8\x28\x35\x90\x76\x5e\x76\x30\x23\x3b\x98\x67\xbd\x1f\x39\x0a\x79\x9e\xca\xe0\x90\x1d\xfc\x55\x4a\x76\x1f\x06\xca\x67\x24\x77\x5d\xd0\xe6\x4a\xd5\x74\x81\xb2\x2c\x55\x6f\x48\x2e\x4a\x20\x59\x66\xce\xb0\x92\xf6\x50\xf3\x3c\x1c\x4e\x0c\x47\xa6\xeb\x39\x5e\x3c\x1e\x19\x21\x7e\x43\xe4\x22\x39\x34\xd0\xed\x0a\x16\xe2\x23\xcf\xa1\x10\x89\x92\x8f\xce\x20\x23\x08\x93\x34\xb1\x6d\x27\x64\x90\xbd\xd1\x4d\x88\xb5\x23\x81\x5c\x00\xf6\x34\xd2\x0b\x72\xb6\x42\xab\x95\x48\x43\xb5\x65\x29\x55\x7c\x01\xc3\x07\xa4\xc0\x7b\x5b\xdf\x63\x11\x7e\xa5\x6f\x88\xe9\x36\x94\x93\xd3\x72\x49\xf5\xc5\x85\x66\x92\x8c\x89\x29\xde\xbb\x5f\x83\x58\x0b\x49\x97\x23\x10\xaa\x1e\x3c\x67\xf7\x34\x5f\x5b\xa6\x43\x36\x82\x68\x51\x0a\x79\x81\x1c\x1d\x19\x01\xda\x5a\x41\xec\xa6\xb2\x25\xc5\xbd\x91\xdb\xd3\xf3\xcb\x6c\x06\x9f\x58\x96\xfb\x96\x88\x1b\x4e\x67\xec\xd1\xcd\x38\x82\x08\x4f\x65\xa4\x3d\x72\x87\xc7\xa5\x6e\xbe\x18\x8f\x23\xf8\x7f\x8e\x12\xc8\x95\x41\xed\xa4\x60\xcd\xf3\xf4\x06\xad\x13\x07\xed\xe8\x4a\x2d\x34\x2e\xea\xd0\xdc\xdc\x45\xcf\xb2\xc3\xe3\x30\xf9\x55\x7d\xc5\x21\x7a\x59\xea\x8d\xf4\xc2\xdb\xba\xc4\x5e\x11\x44\x07\x83\x10\xd0\x43\xc9\xef\x47\xa0\x43\xe6\x60\x34\x3d\x3a\x7e\x78\x07\x8f\x6b\x7b\x53\xbf\x65\x48\xc2\xa8\x09\xdb\x2a\x73\xe1\x78\x5f\x28\xd8\x6c\xf0\x46\xef\xae\xf3\x63\x90\xc6\xb7\x2a\x02\x68\x8d\x0d\x14\xa8\xac\xc8\xe8\xe3\xfe\x88\x2f\xed\x18\x93\xcc\xdf\xf5\x2a\x86\x72\xf9\x68\x6c\xa8\xff\x06\x03\xe3\x3a\x6e\xf3\x7a\x09\x7d\x93\xab\xef\x0d\x1b\x1b\x0b\x32\x98\x96\xd5\xfa\xcd\xeb\xef\xe2\x7a\x04\x7e\xff\xa7\x44\x50\x14\x1f\x18\x3e\xb6\x5d\x1b\xeb\x60\x1f\xab\xb6\x5d\xda\x8e\x11\x1b\xca\x74\xa4\xfd\xf7\x72\xfa\xc1\x6e\x5a\xdf\xda\xb6\xcd\x6e\xb6\x7e\x37\x3f\x9d\xb8\xea\xcc\xf4\x0f\xee\x3b\x9c\xff\xa9\x76\xbe\x2f\x90\x6e\x2a\x09\x76\x89\x68\x5f\x9b\x92\x88\xc1\xf5\x7a\x15\x06\x4a\xf2\xd8\x7d\x9c\x10\x41\xe1\x0c\xcf\xf0\x9b\xd7\xdf\x8d\x54\x72\xc9\xa8\xd6\xc4\x35\xe3\xf9\x2d\xd0\x2e\xb8\xb8\x84\x33\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\xe3\x1b\x13\x60\xb8\x92\x8f\x36\x35\x7a\x8b\xf6\xed\x54\x95\xb8\xd7\xdc\x84\x6a\x90\x1d\xed\xc1\x95\x25\x54\x75\x9e\xab\x76\xa3\xe7\x68\x86\x16\x86\x80\xb2\x46\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xa5\x35\x61\x7d\x07\x14\x6d\x05\x13\xee\x48\x01\x5e\x96\xd2\x5c\xd9\x45\x90\x08\x4b\x49\x8a\x05\x59\x51\xb0\x9f\xe2\x18\x36\x49\xd4\x3c\x13\x95\xad\x32\xb7\xd6\xd4\xb5\x1c\x94\xfc\x16\x35\xbc\x00\x6d\xe2\xfb\xc4\x96\x25\x29\xdb\x03\x57\xb5\x76\x81\x6a\x97\xda\xf3\xef\xd4\x51\xee\x14\xae\x49\x2d\xb7\x69\xa7\xd3\xc9\xde\x9d\x91\x7e\x7d\xe0\x47\x7c\x3a\x3a\x99\x8c\xdb\xc0\x9d\xcb\x23\xac\xc3\x9f\x2c\xa1\xec\x2c\x1e\x13\xf9\xf5\xf3\xc8\x4e\x67\xe8\xbc\x6f\x82\x5c\x85\xb4\x46\x89\xd2\x57\x1e\x73\x50\x60\xef\x86\xa4\x3a\x85\xcd\x60\x44\x6a\xd7\xbf\x32\xe1\x28\x6d\x8d\xed\x86\xa4\x6c\x94\xc6\x4c\x63\x47\xeb\xf0\x4c\xe3\xfb\xec\x86\xa4\x4c\x33\x3a\xbe\xda\xcc\x33\x59\x12\xf7\x06\x0d\x6a\xa2\xc2\x01\x7f\xf6\xe5\x97\x7e\xba\x68\x04\x0f\x26\x27\xa2\x02\x9e\x15\xa7\x68\xe4\x10\x75\x1e\x48\xa1\x60\x29\xa3\x40\x31\x2a\x91\x12\x3f\xaa\x80\xe7\x47\xaf\xc2\x3f\x7f\x26\x80\x0d\x4b\xed\xc2\x34\x38\x5a\x24\x0e\x86\xcc\x6c\x79\x48\x47\xc8\xac\x93\xec\xc3\x11\x33\x3d\xe9\xe9\x21\xb3\x53\x22\x60\x97\xd8\x25\xbd\x7e\xf5\x75\x6f\x10\x0c\xa3\xd8\x4d\x6c\x1c\x19\x43\x91\x00\x90\x8e\x6b\x3f\xea\xb5\x63\xfe\x74\xc1\xc2\x80\x5a\x47\x3c\xcd\x01\x35\xe0\x34\x3c\xee\xe5\x22\xe0\x93\x56\xe2\xe3\xd5\x2f\x06\xa7\x98\xc5\xbb\x99\x88\x64\x04\x91\xc7\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\x35\x87\x9b\x1b\xcd\x11\x5c\xf0\x21\x6e\x0e\x4f\x8e\xeb\xf5\x86\xf5\xfa\xa2\x7a\xdb\xf0\xf8\x98\x9e\xa8\x92\xaf\x0e\x6f\x82\x4f\x14\xbb\x60\xd3\xe9\xf3\xa6\x92\x39\x68\xc7\x65\x7c\x01\x74\x5d\x9c\x28\x80\x5c\x4f\xcf\x30\xd8\x33\x09\xce\x8d\xa8\x3a\xc2\x84\x1a\x8c\x05\xb9\xe8\x79\xe8\xbc\x5d\x13\x0e\x02\x72\x7c\xc0\x5c\x7d\x5e\x02\x4f\xfe\x8a\x70\x56\xd6\x02\x50\x9d\xa0\x15\x86\x7a\x39\x18\x8f\xf7\x95\x6f\x8c\x76\xc4\x08\x54\xc0\x4c\xe7\xb4\xf1\x90\x24\x56\x14\x1c\xb1\xac\x61\x59\xa0\xba\xf4\x94\x90\xb9\xd0\x11\x7e\x23\x6a\x45\x72\xdc\x8b\x28\x32\x91\x49\xdd\x34\xfc\x79\x80\x1d\x62\x98\xd9\x34\x93\xdb\x08\x27\xa7\x1f\xc2\x70\x47\x7d\xf5\xba\xc6\xbb\xfd\xfa\x7d\x6f\x1d\x95\xb8\x55\x32\x1b\xef\xd0\xcb\x05\x06\x7e\xc9\x92\x4a\x4c\xdb\xe0\x45\x6f\xb9\x40\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xe7\x92\xa8\xa0\x2a\x3c\xd4\x8a\x75\xe2\x2c\xb7\xba\xdd\x05\x3b\x6d\xc7\xed\xee\x55\x51\x34\x19\xa3\xb1\xc2\xbf\xcb\xdb\x43\x5c\x86\x93\x07\xbb\x32\x08\xe5\x5c\x59\xe7\x59\xf1\x85\x6c\x4e\xaf\x5e\xe5\x67\x1f\x22\x6d\x7c\x5a\x09\xaa\xa9\xf2\x9a\x3c\x18\x23\xb3\xb6\xbf\xdd\x3b\xf7\x02\x7f\xec\x50\x4e\x31\x5e\x9b\x74\xaa\xe0\xa2\x33\x62\x8d\x02\x4e\x2e\x2b\x93\x9e\x35\x1b\x2c\x97\x55\x9b\x9c\x7d\xb1\x6b\xb0\x74\x3c\x87\xe3\xc2\xc6\x6c\xa6\x0e\x84\xe9\xf6\x9a\x56\x14\x63\x8c\x76\xd8\x73\xf1\x94\x78\x12\xb5\x81\x1c\x5f\xd9\x8f\xec\x99\x9e\xdf\x94\xd8\x0b\x22\xbb\xfd\x51\x62\x47\xe8\xa5\xbe\x8d\x5c\x88\xfa\x97\x2e\x1e\x6f\xea\xb0\xdf\x69\x16\x4e\x5d\x8f\x2b\xb2\xa4\xa6\x70\xbb\x99\x95\xe6\xc2\x3d\x1b\x83\xcf\xbb\x62\xd1\x37\xde\xe6\x43\x0c\x1a\xe9\x93\x2c\x8b\x07\x50\x19\x79\x5f\xa6\x8a\x57\x18\xf3\x6a\xf2\x26\x2d\x6e\x44\x9c\x10\x23\x24\x46\xc9\x21\x46\x7d\xb9\x47\xb4\x64\x97\xae\x16\x7f\x45\x77\xf3\xee\x56\x12\x7e\xfd\x58\xf1\xed\x96\xcd\x7a\xc9\xe0\x18\x1a\x1a\xcf\x2a\x08\x02\xb9\x34\x17\xd8\x76\xea\x40\xfa\xc0\x98\xf5\x74\x1c\x92\xce\x73\x62\x8e\xc9\x8c\xb0\x5c\x17\xea\xd8\x53\xd2\x07\x3f\x6a\x13\xcc\x88\x3c\x2b\x21\x62\xb9\xac\x92\xf0\xa4\xdd\xd0\x10\x92\x21\xaa\xc1\xb6\x45\x13\xbd\x2d\x96\x40\x9b\xcd\xf8\xec\x0f\xff\xfa\x37\x3f\xfc\xfe\x9f\x7f\xf8\xa7\x7f\xfb\xe1\xef\x7f\xf7\xc7\x7f\xfc\xdb\xff\xfc\xf7\xff\xf8\xc3\xef\xff\xee\x87\x7f\xf9\xdd\x1f\x7f\xf7\x0f\x67\x63\x38\x1f\xde\x13\x47\xb0\xbe\x25\xc3\x27\x97\x3e\x11\x3f\x82\xcd\xce\xfa\x40\xef\xb1\x9f\xbf\xb2\x8f\x98\xe8\xd0\x3c\x6d\x32\x36\x75\x83\x3b\x4f\xe6\x61\xbb\x6d\x8b\xa4\x12\x33\x57\x7d\xb9\xac\x7d\xb9\xa4\xba\xf7\xcb\xa5\x06\x6c\xe5\xf4\x86\x1e\x62\x6c\x36\x68\xed\x9b\x3b\x82\xa5\x7a\xdb\x3e\x83\xa6\x6d\xf7\x10\xa2\x1d\xbb\xc2\x3b\x38\xba\x1c\xc7\x50\xc7\x74\xf6\xc8\xa3\xea\xbb\x2d\x10\x95\x9f\x33\xda\xd7\xf3\x1c\x07\xce\xe2\x8a\xe4\x69\xa3\xce\x0d\x18\x43\x78\x3b\xb6\xfb\x40\x7e\xcc\x91\x6c\xc1\xb7\xc7\xd1\xb1\xd0\xd0\x91\xdc\x63\x29\x03\xea\xd0\xa9\xec\x66\xcf\x9f\x98\xb8\x47\xa3\xe6\xb1\xfb\x10\xe1\xf7\x70\xf7\xb9\x7d\xe7\xb1\xf5\x64\x1e\x54\x60\xb6\x31\x0b\x14\x22\x70\x09\x06\x4d\x6d\x51\xc6\xca\x82\x32\x2c\x5f\x78\xa6\x9c\x0a\x67\x46\x73\x2a\xf5\xa7\x15\x7d\x53\x01\x0d\xd3\xb6\xa5\x20\xcb\xd7\x54\x7e\xac\x71\x78\x8c\xc5\x70\x7e\x20\xcf\xdc\xce\x77\x8f\xcf\xe0\x55\x91\xaf\xd5\x67\x9a\x10\x61\xd5\x5b\x98\x7c\x97\x58\xa0\x41\x05\x13\x17\x4c\xc2\xb1\x98\x82\xc0\x0b\x8b\x8a\xb2\xa5\x5c\xf8\x35\xa0\xe5\x92\x49\x34\x37\xb2\x5a\x7d\x41\x06\xdd\x56\x56\x50\x21\xe0\x6c\x6c\x66\x54\xcb\xef\x94\x5a\x07\x8c\x86\x46\x98\xb5\xf6\xcf\x1c\x97\x5d\x8f\xf0\xc5\x61\x7f\xb0\x71\x08\x7b\x53\xb8\xfd\x39\xdc\xde\x24\xae\x3a\x3d\x78\x85\xc2\xd9\xb4\x0e\x43\x27\x41\x0e\x7e\xec\x6b\xc8\xb4\xd5\x1e\x96\xf2\xe0\x31\xea\x82\xa2\x09\x3e\x5b\x45\x23\x50\x94\x6d\x0c\xdc\xa7\xd8\xc1\xc5\x24\xdc\x67\x34\x63\x2c\x12\x14\x58\x31\xfe\xb4\x9e\xcd\x28\x8f\x11\x57\xbf\xce\x19\xfc\x4a\x02\xe3\x9e\x06\xfb\xdf\x16\x3b\xf8\x65\x11\xf7\xa9\xd1\x63\x53\x75\x2f\x9f\xdc\xdd\x7e\xcc\x35\x0a\x5b\x6b\x86\xe3\x41\x87\x37\xdd\xb3\xb9\x5a\x89\xb8\x20\xa2\xc5\x08\x04\x5f\xe9\x67\xf7\xe9\x38\xe3\xd0\xed\x7f\xb5\xee\xd8\xeb\x91\x5d\x17\x1d\x6f\xeb\x89\x63\x00\xc4\x01\x35\x79\x4d\x6f\xeb\x89\x98\x72\x36\xa1\xf1\xce\xc5\x46\x23\x3b\xbd\xab\x4d\xe8\xe4\x75\xf5\x41\x69\xcd\x57\xfe\x67\x35\x14\x10\xfa\x42\xcc\xd5\x62\x93\x83\x9c\x65\x38\x04\xfd\xcc\x6e\xc4\xbd\x8b\x83\x1e\x1b\x6c\x36\xad\x2f\x4d\x90\x7b\xea\x6d\xd8\xb1\xdf\x72\xc1\x21\x47\x7c\xcb\xa5\x81\x7c\xf0\xce\x49\xeb\x3b\xb6\xa9\x23\xb0\xa9\xe4\x4f\xfc\xbd\xee\xf9\x86\xcb\x30\x04\x53\x91\xf0\x3f\xef\x53\x2e\xcd\xba\x0e\x5e\x22\x35\x4c\xea\xf6\xf8\x02\xda\x6b\xc6\xab\x17\x6e\xd9\x27\x7d\xbf\x05\x37\xca\xeb\x61\xf4\xd5\xc8\x5c\x41\xbf\x2e\x3a\xfb\x78\x29\xb7\xa6\xc7\x4e\x89\xcf\xa9\x1f\x78\xf1\x76\xd9\xab\xf2\x3f\xfd\x03\x2f\x1e\x1c\x57\x2f\x7c\x98\xb8\xde\xf2\x00\xe0\xac\x4d\xdd\x86\xb4\x7b\xdf\x6b\x31\x33\xed\xa6\x19\xfa\xe6\xf1\x02\xdd\x48\xb2\xcd\xa6\x4d\xf6\xee\x84\xcb\x52\xcc\x8d\x00\x7c\x21\xe6\xfd\xf1\xed\xfd\xd2\xcf\xae\x9b\x8f\x03\x05\xe4\x4b\x31\x4f\x9f\x29\xbd\xd7\x5d\xf2\xd8\x95\xa1\xb7\xbc\xdc\x73\x8d\xd2\x90\xc7\x04\x41\x9b\x9a\xb5\x0e\x7e\xd9\x8d\x53\xaa\x05\x1f\x51\xb3\x86\x31\x34\x28\x27\xbf\xc1\x5a\x0c\x13\x86\x14\x6e\xbf\xec\x27\x33\x5e\x90\x62\xad\x53\x2f\x98\x90\xb3\xb5\x19\xfa\xcb\x7b\x35\x86\x0c\x30\xff\x81\xe8\xa1\x00\x2c\x04\xc3\xec\x9b\xb9\xd8\x63\x84\x5a\x2f\xde\x3d\x49\x32\x9c\xd7\x58\xf4\x23\x28\xa6\x2d\x0d\xe6\xd2\x03\xdd\x71\x49\x4b\xe7\x16\x0f\xea\xf9\x71\x09\xfe\xc4\x66\x22\x9c\xa1\x01\x9b\x9c\x52\x5e\x83\x2b\x32\xa1\x6a\xdb\x76\x42\x79\x8d\x37\xfa\xc0\x07\x1a\x70\xf9\xff\xdd\x1f\x68\x68\xb0\xdb\xb7\x22\x7a\x15\xd0\x4d\x3d\xc9\x99\x58\x50\x7e\x4a\xf5\x4c\xf7\xd7\x19\x8e\xb5\x3e\x3e\xe6\xf3\x0c\xb6\xa2\x63\x68\xd8\xe5\x0e\x0f\xbd\xa4\x0f\x6e\x75\x4a\x49\x78\xdf\x69\x08\x82\x23\x0c\x9a\xd0\xab\xdb\x68\x1d\x05\xbf\x58\xe3\x19\x3d\xa4\x33\xf6\xab\x34\x76\x8b\x34\x5a\x45\xb1\x4e\xa0\xd8\x93\xd1\x59\x92\xd1\x29\x72\x8d\x2b\xe5\x21\xb2\x53\x32\x71\xfa\xc7\x17\x70\x61\x7d\xd9\xe5\x3e\xb1\xef\x92\xca\x3d\x54\xe9\x94\x7d\xc7\x7d\x7c\xc1\xea\x85\x3f\xd9\x67\x16\x7a\x50\x3e\x42\x55\x41\xbf\xae\xc2\x5a\xba\x23\xd4\x10\xe5\xdc\xce\xb7\xa7\x8e\xc6\x63\xd8\xd7\x48\xe3\x31\x6c\x3d\xe8\x76\x70\xaa\x0a\xea\xed\xe0\xcf\x3f\xdf\x7f\x97\x62\x4a\x53\x7d\xe2\xf1\x3d\x33\xd7\xc4\xde\x47\x3d\xd3\xd8\x34\xef\x3e\x10\x5b\xcd\x6b\x11\xe9\x48\x8d\x76\x7e\x3c\xe2\x58\xa5\xdc\x95\xb3\x1c\xd6\xca\xdd\xdf\x5a\xf2\x79\xd8\xe8\xe6\x6e\xd5\x6c\xd2\x67\x03\x9a\xb9\x7d\xff\xc6\xfd\x9f\xe3\x98\x12\x1e\x13\x21\x51\xae\x43\x8f\xb2\xc6\xad\xb6\x92\xfe\x85\x98\xef\xea\xea\x73\x85\xeb\x4f\xa3\xb0\x8f\xb5\xb1\x0e\x25\x0e\x2d\xc9\x7b\x15\xb4\x9b\x48\x9d\x08\x07\x2e\xf1\xb6\xe1\xbf\x06\x00\x87\x62\x7f\x90\xcc\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27057, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x4a, 0xd1, 0x40, 0x8f, 0x5d, 0xd2, 0x86, 0x67, 0x58, 0x4f, 0xf5, 0x91, 0x80, 0x1f, 0xee, 0xaa, 0x5f, 0x80, 0x2d, 0x7b, 0x5a, 0xed, 0xc5, 0x93, 0xf5, 0xe0, 0x25, 0xe4, 0xd2, 0x94, 0x29, 0x29}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27084, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xf3, 0x6c, 0xf5, 0x23, 0x98, 0x31, 0xdb, 0x31, 0x82, 0xae, 0x9c, 0xb5, 0x82, 0x4b, 0x61, 0x48, 0xe5, 0xe3, 0x1b, 0x3b, 0x85, 0x3e, 0xdb, 0xc0, 0xc4, 0xd, 0x55, 0x9f, 0xd1, 0x54, 0x33, 0x95}}
 	return a, nil
 }
 
-- 
2.43.0


From 715405d34dad2cde5a960937aec839cea6752833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 23/44] fix: leave generated files whole when writing them
 fails

---
 gengokit/generator/gen.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index e208fa0..2bb3878 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -216,23 +216,48 @@ func formatCode(code []byte) []byte {
 	return formatted
 }
 
-// WriteGenFile writes a file at path to the filesystem
+// WriteGenFile writes a file at path to the filesystem. The file is written
+// next to path and then renamed, so that a failure at any point leaves at path
+// what was there before.
 func WriteGenFile(file io.Reader, path string) error {
 	err := os.MkdirAll(filepath.Dir(path), 0777)
 	if err != nil {
 		return err
 	}
 
-	outFile, err := os.Create(path)
+	// write through a symlink instead of replacing it
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+
+	var mode os.FileMode
+	if info, err := os.Stat(path); err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmpPath := filepath.Join(filepath.Dir(path), "."+filepath.Base(path)+".tmp")
+	// left behind by a run which was interrupted
+	os.Remove(tmpPath)
+	outFile, err := os.Create(tmpPath)
 	if err != nil {
-		return errors.Wrapf(err, "cannot create file %v", path)
+		return errors.Wrapf(err, "cannot create file for %v", path)
 	}
 
 	_, err = io.Copy(outFile, file)
+	if err == nil && mode != 0 {
+		err = outFile.Chmod(mode)
+	}
+	if cerr := outFile.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmpPath, path)
+	}
 	if err != nil {
+		os.Remove(tmpPath)
 		return errors.Wrapf(err, "cannot write to %v", path)
 	}
-	return outFile.Close()
+	return nil
 }
 
 // responseInfo 输出代码生成信息
-- 
2.43.0


From 51fde51f6bfa32fdc9414953ebbba5321380cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 24/44] fix: do not replace existing files which cannot be read

---
 cmd/baron/main.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index a0bf898..79b8a1b 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -430,13 +430,17 @@ func cleanProtofilePath(rawPaths []string) ([]string, error) {
 
 // readPreviousGeneration returns a map[string]io.Reader representing the files in serviceDir
 func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Reader, error) {
-	if !fileExists(serviceDir) {
+	if _, err := os.Stat(serviceDir); os.IsNotExist(err) {
 		return nil, nil
 	}
 
 	files := make(map[string]io.Reader)
 
 	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+		// a file which is not read would be generated anew and replaced
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			switch info.Name() {
 			// Only files within the handlers dir are used to
@@ -480,15 +484,6 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 	return files, nil
 }
 
-// fileExists checks if a file at the given path exists. Returns true if the
-// file exists, and false if the file does not exist.
-func fileExists(path string) bool {
-	if _, err := os.Stat(path); err == nil {
-		return true
-	}
-	return false
-}
-
 func cleanupOldFiles(servicePath, serviceName string) {
 	serverCLI := filepath.Join(servicePath, "svc/server/cli")
 	if _, err := os.Stat(serverCLI); err == nil {
-- 
2.43.0


From 5e9788fc77d16929c998c39592af5d0c54e7005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 25/44] fix: read oneofs whose names end in server

---
 svcdef/svcdef.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 1a3129b..ade1ef1 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -259,12 +259,12 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				// care about, but structured a bit differently. Additionally,
 				// oneof fields are generated as interfaces and captured here
 				// to aid in their generations
+				// is prefixes indicates oneof, we'll use this to form Fields later
+				if strings.HasPrefix(t.Name.Name, "is") {
+					oneofExists[t.Name.Name] = struct{}{}
+					break
+				}
 				if !strings.HasSuffix(t.Name.Name, "Server") {
-					// is prefixes indicates oneof, we'll use this to form Fields later
-					if strings.HasPrefix(t.Name.Name, "is") {
-						oneofExists[t.Name.Name] = struct{}{}
-						break
-					}
 					if !strings.HasSuffix(t.Name.Name, "Client") {
 						// This interface isn't either Server or Client; it may be a oneof
 						// field, which isn't currently supported.  Warn the user and skip.
-- 
2.43.0


From 75f4f077389faa3f0d49f49834a18c9ea409b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 26/44] fix: refuse definitions of more than one service

---
 svcdef/svcdef.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index ade1ef1..511beed 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -284,6 +284,10 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 						log.Tracef("\t\t%v.%v.Bindings[%v] = %v\n", nsvc.Name, m.Name, i, b.Verb+"."+b.Path)
 					}
 				}
+				// the methods of one would get the bindings of another
+				if rv.Service != nil {
+					return nil, errors.Errorf("more than one service is defined: %q and %q", rv.Service.Name, nsvc.Name)
+				}
 				rv.Service = nsvc
 				setPBNames(nsvc, rv.PkgName, fileAst)
 			}
-- 
2.43.0


From 9580b9bd31f126aad5d0599fe44b76dc11ed9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 27/44] fix: send path parameters followed by a custom verb

A segment such as "{id}:cancel" was sent as it stands in the template,
without the value of its parameter.
---
 gengokit/httptransport/httptransport.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index e31c9fd..d995a4e 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -261,6 +261,12 @@ func (b *Binding) PathSections() []string {
 	rv := []string{}
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
+		// A parameter may be followed by the verb of a custom method, as in
+		// "{id}:cancel"
+		verb := ""
+		if i := strings.IndexByte(part, '}'); i > 0 && strings.HasPrefix(part[i+1:], ":") {
+			part, verb = part[:i+1], part[i+1:]
+		}
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
 			name, ok := goName[RemoveBraces(part)]
 			if !ok {
@@ -277,12 +283,15 @@ func (b *Binding) PathSections() []string {
 			} else if _, ok := isString[name]; ok {
 				convert = fmt.Sprintf("url.PathEscape(%s)", convert)
 			}
+			if verb != "" {
+				convert += ` + "` + verb + `"`
+			}
 			rv = append(rv, convert)
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
 			// so that the 'fmt.Sprint' lines will be unquoted and thus
 			// evaluated as code.
-			rv = append(rv, `"`+part+`"`)
+			rv = append(rv, `"`+part+verb+`"`)
 		}
 	}
 	return rv
-- 
2.43.0


From fb3ec7249f3611b97008444416edbd08f1e64a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 28/44] fix: do not crash on handlers with grouped parameters

A handler declared as (a, b T) has two parameters in one field.
---
 gengokit/service/services.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index f67a458..ac265e6 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -188,7 +188,8 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 // updateParams updates the second param of f to be `X`.(m.RequestType.Name).
 // func ProtoMethod(ctx context.Context, *pb.Old) ...-> func ProtoMethod(ctx context.Context, *pb.(m.RequestType.Name))...
 func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
-	if f.Type.Params.NumFields() != 2 {
+	// (a, b T) are two parameters in one field
+	if f.Type.Params.NumFields() != 2 || len(f.Type.Params.List) != 2 {
 		log.WithField("Function", f.Name.Name).
 			Warn("Function params signature should be func NAME(ctx context.Context, in *pb.TYPE), cannot fix")
 		return
-- 
2.43.0


From eca88a9cb92ed1bc79064d1a415c3bfb55487a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 29/44] fix: a definition which cannot be read to its end is an
 error, not one without HTTP bindings

---
 svcdef/svcparse/parser.go  | 5 +++++
 svcdef/svcparse/scanner.go | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index be13a39..e0c164a 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -230,6 +230,11 @@ type Field struct {
 // ParseService will parse a proto file and return the the struct
 // representation of that service.
 func ParseService(lex *SvcLexer) (*Service, error) {
+	// A definition which was read in part only says nothing about its service
+	if err := lex.Scn.readErr; err != nil {
+		return nil, fmt.Errorf("cannot read service definition: %w", err)
+	}
+
 	tk, val := lex.GetTokenIgnoreWhitespace()
 	if tk == EOF {
 		return nil, io.ErrUnexpectedEOF
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 3f5a579..b8ea270 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -16,6 +16,9 @@ type RuneReader struct {
 	RunePos    int
 	LineNo     int
 
+	// Err is why the contents could not be read to their end, or nil.
+	Err error
+
 	// Position relative to the service definition. This belongs to the reader
 	// so that scanning one input never affects the scan of another.
 	withinBody bool
@@ -53,13 +56,14 @@ func (self *RuneReader) UnreadRune() error {
 
 func NewRuneReader(r io.Reader) *RuneReader {
 	//contents := bytes.Runes(ioutil.ReadAll(r))
-	b, _ := ioutil.ReadAll(r)
+	b, err := ioutil.ReadAll(r)
 	contents := bytes.Runes(b)
 	return &RuneReader{
 		Contents:   contents,
 		ContentLen: len(contents),
 		RunePos:    0,
 		LineNo:     1,
+		Err:        err,
 	}
 }
 
@@ -294,6 +298,7 @@ type SvcScanner struct {
 	Buf          []*ScanUnit
 	UnitPos      int
 	lineNo       int
+	readErr      error
 }
 
 func NewSvcScanner(r io.Reader) *SvcScanner {
@@ -314,6 +319,7 @@ func NewSvcScanner(r io.Reader) *SvcScanner {
 		BraceLevel:   0,
 		Buf:          b,
 		UnitPos:      0,
+		readErr:      rr.Err,
 	}
 }
 
-- 
2.43.0


From 22b47df06e58cb4a3e900cee1f709015a204d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 30/44] fix: --start left empty files behind when it failed,
 and wrote through dangling links

---
 internal/start/start.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/start/start.go b/internal/start/start.go
index fd0edee..a5b4b7a 100644
--- a/internal/start/start.go
+++ b/internal/start/start.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"github.com/teamlint/baron/gengokit/generator"
 	"github.com/teamlint/baron/pkg"
 )
 
@@ -53,7 +54,7 @@ func Do(pkg string, outDir string) int {
 		alias: pkg,
 		out:   outDir,
 	}
-	if _, err := os.Stat(pinfo.FileName()); err == nil {
+	if _, err := os.Lstat(pinfo.FileName()); err == nil {
 		existingFile, err := renderTemplate("existingFileMsg", existingFileMsg, pinfo)
 		if err != nil {
 			log.Error(err)
@@ -61,6 +62,10 @@ func Do(pkg string, outDir string) int {
 		}
 		log.Error(string(existingFile))
 		return 1
+	} else if !os.IsNotExist(err) {
+		// what stands there cannot be told
+		log.Error(err)
+		return 1
 	}
 	// create directory
 	if outDir != "" {
@@ -70,11 +75,6 @@ func Do(pkg string, outDir string) int {
 			return 1
 		}
 	}
-	f, err := os.Create(pinfo.FileName())
-	if err != nil {
-		log.Error(errors.Wrapf(err, "cannot create %q", pinfo.FileName()))
-		return 1
-	}
 
 	code, err := renderTemplate(pinfo.FileName(), startProto, pinfo)
 	if err != nil {
@@ -82,7 +82,7 @@ func Do(pkg string, outDir string) int {
 		return 1
 	}
 
-	_, err = f.Write(code)
+	err = generator.WriteGenFile(bytes.NewReader(code), pinfo.FileName())
 	if err != nil {
 		log.Error(errors.Wrapf(err, "cannot write default contents to %q", pinfo.FileName()))
 		return 1
-- 
2.43.0


From 009bbba20e3f42dfd233b3b78ddea16ec44e4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 31/44] fix: of several values of an error's header one was
 sent, and none of a header not in canonical form

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl  | 10 ++++++++--
 gengokit/template/template.go                          |  8 ++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 871887b..46cecfd 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -367,8 +367,14 @@ func errorEncoder(_ context.Context, err error, w http.ResponseWriter) {
 	}
 	w.Header().Set("Content-Type", contentType)
 	if headerer, ok := err.(httptransport.Headerer); ok {
-		for k := range headerer.Headers() {
-			w.Header().Set(k, headerer.Headers().Get(k))
+		headers := headerer.Headers()
+		for k := range headers {
+			w.Header().Del(k)
+		}
+		for k, values := range headers {
+			for _, v := range values {
+				w.Header().Add(k, v)
+			}
 		}
 	}
 	code := http.StatusInternalServerError
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index bf0480d..2fe237d 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.084kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.177kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.985kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xe3\x38\x76\xf8\x59\xfa\x14\x6f\x84\xf9\x23\xd5\xcf\x25\xcf\x2f\x40\x82\x4d\x0d\x2a\x40\x77\x75\xcd\x4c\xef\x4e\x77\xd7\x76\x55\xef\x1c\x1a\x8d\x5e\xda\xa2\x6d\x6e\xc9\x92\x9a\xa4\x5c\xe5\x75\x7c\xc9\x65\x03\x24\x40\x80\x9c\x72\x08\x16\x39\xe5\x1a\xe4\x9c\xcf\xb3\x13\xec\xb7\x08\x1e\xff\x89\xb2\x25\xd9\xee\x99\x0d\x82\x20\x0d\xec\x94\x45\x91\x8f\x8f\x8f\x8f\xef\x3f\xb5\xe3\x31\x5c\x95\x19\x85\x39\x2d\x28\x27\x92\x66\x30\x59\xc3\x84\xf0\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x0e\xae\x9f\x3d\xbf\x4b\xc3\xf1\x18\x5e\x53\x5e\x17\x05\x2b\xe6\xba\x03\x3c\xb0\x3c\x87\x72\x45\xf9\x03\x67\x92\x82\x5c\x30\x01\x33\x96\x53\xd5\xf9\x57\x94\x0b\x56\x16\x17\xb0\xd9\xa4\xe6\xf7\x76\xeb\xbd\x80\x67\x44\x52\xff\x2d\x3e\x6f\xb7\x61\x58\x91\xe9\x3d\x99\x53\x7c\x73\xa3\x7f\xbe\x24\x4b\xf5\x66\x3c\x86\x3b\x3b\x07\x4c\xcb\x42\x12\x56\x08\x58\x52\xb9\x28\x33\x01\xb2\x84\x25\xb9\xa7\xc0\x8a\x8c\xad\x58\x56\x93\x1c\x68\x91\x55\x25\x2b\xa4\x80\x19\x2f\x97\x20\x28\x5f\xb1\x29\x15\x23\x44\x83\xd3\x0f\x35\x15\x12\x48\x91\x01\xa7\xa2\x2a\x0b\x41\x41\xae\x2b\xaa\x20\x61\x57\x5c\x51\x29\x68\x03\x65\x04\x44\xc0\x03\xcd\x73\xfc\x4b\x8b\x69\x99\x51\x2e\x10\x00\xc2\xcb\xa8\x79\x9e\x95\xdc\x0c\x54\xd0\x46\xaa\x81\x20\xa5\x66\x50\xd6\x1c\x44\x5d\x55\x25\x47\x4a\x4b\x4e\x0a\x81\xbf\x11\x33\x46\x72\xf6\x5b\x22\x59\x59\x20\xb4\x59\xc9\x97\x44\x8a\x34\x0c\xd9\x52\xf5\x88\xc3\x20\x9a\xac\x25\x15\x51\x18\x44\xb8\x76\xfa\x28\xf1\xa7\x42\x83\x15\xf3\xf1\x6f\x44\x59\x60\xc3\x6c\xa9\xda\x59\xa9\xff\x3b\x66\x65\x2d\x59\x8e\x0f\x05\x95\xe3\x85\x94\x95\xfd\x5d\x73\xd5\x2c\x24\x9f\x96\xc5\xca\xfc\x64\xc5\x5c\x44\x61\x18\x44\x73\x26\x17\xf5\x24\x9d\x96\xcb\xf1\xbc\x3c\xbf\x67\x72\x8c\xff\xb3\xb4\x88\xc2\x80\x14\xeb\x6a\x02\xd1\xbc\x2c\xe7\x39\x4d\xe7\x65\x4e\x8a\x79\x5a\xf2\xf9\xb8\xe2\xa5\x2c\x27\xf5\x6c\xac\xd6\x3f\xbe\x2f\xca\x87\x62\xac\x7a\x47\x61\x90\xd5\x5c\x2d\xf2\x84\xa1\xcd\x90\x28\x0c\xe8\xb2\x92\xa7\xcc\x6b\xfa\x47\x61\x30\x63\x34\xcf\x96\x44\xdc\x9f\x30\xda\x1b\x13\x85\x81\x90\xbc\x9e\xca\x13\x86\xdb\x01\x51\x18\x48\xb6\xa4\x42\x92\x65\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x9c\x54\x15\xe5\xe2\x04\x00\xcd\x90\xfd\x2d\xe5\x2c\xcf\xc9\x78\x59\x3f\x46\xed\x37\xd5\xfd\x7c\x4c\x39\x2f\xb9\xe2\xb4\x81\x89\x1c\xe7\xa9\x16\xcb\x7e\x03\x03\xd4\x0f\x44\x64\xb3\x39\x07\x36\x03\xfa\x01\xd2\xab\xb2\x98\xb1\x79\x7a\xe7\x4e\x42\x44\xf2\x3c\x82\xa8\x20\x52\x44\xb0\xdd\xb6\x71\xc3\xd6\x73\x56\xaa\xbf\xe9\x1c\x39\x1c\x41\xd1\x22\xdb\x6e\x8f\x82\x3a\xe7\xd5\xd4\x42\xdd\xc3\x53\xbd\xec\x7d\x33\x5e\x52\x49\x32\x22\xc9\xee\xa4\x47\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\x34\xc4\xc6\x5f\x27\x4c\x81\xdd\x5b\x38\x26\x61\x18\xae\x08\x87\x38\x0c\xde\xc3\x25\xcc\x96\x32\xbd\xad\x38\x2b\xa4\x7e\x56\x02\x2c\xbd\x2a\x97\x15\xe1\x54\x37\x19\xe9\x93\x3e\x91\x25\xd3\x2d\xad\x65\xa6\x2f\xe9\xc3\x2d\xe5\x2b\xca\xf5\x4b\x2d\xcd\xd2\x97\x65\x75\x95\x97\xa2\x69\x4d\xaf\xca\x6a\xad\x1f\x34\xf3\xa6\xdf\x73\x52\x85\xc1\x78\x0c\x66\x3f\x2d\x1b\x6a\x19\x8f\x5d\x95\x48\x4a\x9f\x14\x6a\x5c\x23\x64\xd2\x67\xe6\x27\x36\x1b\xf1\x91\x5e\xe3\x5f\x6c\xb0\x47\x3a\xbd\x55\x3f\xb0\xc9\x3b\xa6\xe9\x9d\xfd\x8d\x2f\x9a\xe3\x87\xbd\x59\x31\xff\x15\xc9\x6b\xb5\x6e\x4f\xae\xa4\x5f\xe3\xef\x17\x44\xdc\x87\x49\x18\x8e\xcf\x8e\xfa\x07\xd7\x56\x27\x81\x6d\x3a\xfc\x6f\xac\x34\xe8\xf3\x02\x08\xea\x9b\x15\xe5\x23\x60\xf2\x0b\x01\xb5\xa0\xb3\x3a\x57\x6a\x6a\x56\x17\x53\xa4\x82\x00\xb9\x20\x12\x0a\x8a\x5a\xaa\x84\xb2\x52\xb6\x01\x94\x38\xb6\xa2\xfc\xdc\xaa\x01\x04\x38\x21\x82\x89\x14\xbe\x2e\x39\xd0\x47\xb2\xac\x72\x3a\x82\x75\x59\xc3\x92\xcd\x17\x12\x2a\x22\x50\x45\x7a\x08\xcb\x12\x88\x9b\x48\xcf\x53\xf1\x32\xab\xa7\x54\x20\x38\x52\x28\x0e\x48\xbf\x25\x45\x96\x23\x8e\x0f\x4c\x2e\x80\x92\xe9\xc2\x68\x7a\x88\xed\xec\x09\x3c\x30\x4e\x33\xa8\x2b\x44\x92\x80\xa8\xe8\x94\xcd\xd8\x14\x2a\x22\x17\x29\xc4\xcf\x25\x02\x64\x02\x2a\x5e\x4e\xc8\x24\x5f\x03\x81\x25\x13\x52\x5b\x09\x90\x51\xc1\xe6\x05\x0e\x65\xc5\xaa\xbc\x47\x75\x4f\x01\x99\x8d\x4d\xa9\xb3\x2a\x14\x8a\x14\xe1\x34\x2b\xd0\x3c\x00\xac\xa1\x64\x9a\x84\xe3\xb1\xa3\xee\x34\x67\xb4\x90\x6d\xea\xca\x12\xa6\x65\x9e\xd3\xa9\xf4\x0c\x94\x7c\x0d\xd3\xb2\xd0\xe0\x68\xe6\x99\x2b\xac\xc0\x05\x21\x40\xc1\x8a\x79\xae\x0d\x13\x4d\x2b\x86\x14\x5e\x52\xc4\xc3\xc7\x97\x15\x92\xf2\x19\x99\xd2\xbe\x9d\x40\x60\x6e\xb2\x6e\x23\xa9\xc6\xc9\x1a\xab\x44\x19\x0b\x78\x00\xaf\xcc\x7a\xa6\xe5\x72\xc2\x0a\x45\xa7\xa5\x41\xd1\xdb\xd8\x91\x31\xa5\x64\xcd\x0b\x60\x12\xe9\x8a\x08\x4e\x49\x9e\x53\x8e\x16\x13\xb1\xc8\xa6\xa1\x5a\xce\x1e\x41\x37\x61\xf0\xa6\x70\xeb\xa3\xd9\x66\x93\xda\x11\xda\x04\x34\x92\x60\xb3\xe1\xa4\x98\x53\xf8\x94\xc1\xc5\x25\xb8\x3e\x2f\xf4\x96\xa1\x1c\xdb\x6c\x3e\x65\x66\x8c\x9d\x05\x00\xdc\x52\x53\xdb\x18\x6e\x36\x5a\xb8\x6a\xeb\xd2\x36\x8b\xc3\x53\x20\x03\x43\xec\x2d\x22\x01\x6f\xd2\x78\x2a\x1f\xc1\x58\x69\xa8\x1a\xf0\xef\x08\x19\xe6\x6c\xb3\xf9\xa6\x44\xc4\xe0\x53\x96\xbe\xd6\x26\xe8\xdd\xba\xb2\x0b\x4c\x20\xde\xe9\xa1\x0d\x53\xaf\xcb\x48\x0b\xb8\x04\x36\x61\x60\xed\x56\xd5\x86\x88\xd2\xb4\x63\xe5\x88\x0c\x4e\x9e\x84\x01\x2a\x2b\xce\xe1\x93\x4b\x28\x58\x8e\x10\x02\xb3\x5f\x05\xcb\x15\x90\x30\xd8\x86\xb6\xcd\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x75\xe4\x44\x62\xbe\x20\xf7\x1e\x79\xc2\xcd\x46\x1d\xe4\x4f\x25\x45\x44\xd3\x2d\x76\x3e\x07\x9f\xca\x9f\x4a\xda\x47\x68\x84\xd5\xb5\x32\x81\x44\x97\xb4\x93\x4d\x92\xfd\xed\x86\x8d\x5b\x1c\xee\x5f\xf7\x2e\x59\xc7\xc0\x9d\xa8\xcd\x36\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x43\xbb\x1d\x06\xc1\xca\xed\x9d\xf0\xf7\x0e\x51\x53\xa8\x24\x61\xd0\xb1\x6b\xfb\xdb\x86\xfb\x66\x5b\x57\x7a\x3b\x02\x64\xeb\x46\x37\xfb\x7b\x83\xca\xf1\x49\x9e\x5f\x3f\x4e\x69\x25\x95\x9e\x12\x5a\xc4\x3a\x4a\x29\x0d\x85\x2e\x8b\x39\x9b\xf6\x85\x00\xb5\x8d\x04\xa1\x78\x36\x81\x23\xf5\x0b\x96\x65\x39\x7d\x20\x5c\x7b\x81\x6f\x84\xf5\x0b\xd1\x09\xaa\xaa\x7c\x8d\x22\x06\xc5\xa6\x44\xe0\x4b\xd7\x5b\x79\x5d\x74\x45\xf9\xda\x6d\x1b\x9e\x17\x94\x20\xc6\x6d\x53\xf0\x5e\x55\xa8\x35\x48\x9e\xaf\x47\xae\x9f\x80\x29\x29\x60\x42\x95\xae\xa1\x19\x0e\x9b\xac\xa1\x40\xb2\xcb\x12\xdb\xe9\xe3\x34\xaf\x33\x9a\x69\x2f\x70\x42\x11\x05\x5c\x73\x45\xb3\x74\x8f\x1a\x71\x83\xd3\x08\xa2\x5b\x49\x64\x2d\xa2\x11\x44\x37\xac\x98\x47\x89\x3b\xf7\x67\x8e\x20\x49\xef\x78\x87\xa1\x47\x95\x51\x83\x4d\x9a\xa6\x42\x99\x05\x8a\x79\x58\x61\x9a\x2f\x2e\x61\x49\xaa\xb7\xfa\xd5\x3b\x4d\xfe\xcd\x16\xd9\x6b\xf7\xc0\x74\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x0b\xd8\x6c\x47\x61\xe0\x9b\x91\xdb\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x0c\xde\x8f\xa0\xbc\xc7\xd7\x16\xb1\xb7\xf4\xf1\xdd\x57\xf0\x49\x79\x8f\xd8\x06\x41\x45\x0a\x36\x8d\x1b\x0b\x6f\x16\x47\xd7\x16\x84\x5d\x37\x7c\xf1\x99\xf8\x02\xb2\x92\x0a\x28\x4a\x09\xf4\x91\x09\xf9\x15\x08\x4a\xfd\x8d\x77\x3e\xa5\x32\xe9\x11\xa9\x24\x31\xfc\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\xbb\x66\x01\xac\x98\x36\xe8\xdb\x3e\x0a\x39\x34\x03\x59\x31\x3d\x9a\x64\x6c\xa6\x80\x5d\x5e\x42\x8b\x78\x0a\x56\x10\x74\x0a\x55\xb8\xf4\xd6\x10\x77\x76\xc1\x55\x04\xdb\x5d\xe2\xeb\x03\xf8\x1d\x99\xd0\x9c\x66\x0d\x5f\xe8\x60\xca\x9c\x4a\xcb\xc5\xc8\xf9\x8e\x8e\x8a\x99\x1f\x16\xb4\x70\x6f\x4b\x8f\x71\x0d\x30\xcd\x7f\x23\x7d\xde\xcc\x91\xa8\x75\x67\xd0\x11\x1a\xa2\xc3\x3c\x6c\x8a\xe6\x0d\x67\x53\x65\x70\x35\xcb\x80\x87\x05\x9b\x2e\xd4\x69\x12\xb4\xe8\x42\xc1\xe8\x74\x33\xda\x5a\x34\x25\x37\x1a\x7d\x7f\x55\x78\x5c\x62\xcd\xca\xa3\x7d\x79\xdc\x21\xa2\xc3\xbe\x75\x7d\xb4\x94\xda\x43\x6a\x64\xd6\xa9\x28\xce\xe9\x94\xb2\x15\x0a\x29\xaa\x97\x58\xce\x5a\xeb\x4e\xe1\x96\x52\x07\xc6\x83\xa2\x5e\x58\x93\xd4\x20\x7c\xfd\x88\x88\x22\x6f\x66\x54\x12\x96\x0b\xb4\x98\xed\xc1\x42\x20\xd6\xec\x25\x39\x93\xeb\x74\x48\x98\xb4\xd6\x1e\x2f\x7f\x04\x45\xff\x4f\xe2\xfc\x6f\x94\x38\xad\x61\x23\x38\x49\x00\x1d\x1f\xb4\x38\xd6\x1d\xfd\xe6\xf5\xcd\x15\xae\x93\xf2\x93\xfd\x51\x34\xed\xbc\xe1\x18\xc2\x15\x8d\x81\xe0\x76\x0a\xc8\x8a\xb0\x9c\x4c\x72\xaa\x5d\x89\xf9\xeb\x9b\x2b\xe8\x71\x10\xcc\xc1\x6a\x43\x76\x5e\xa3\x68\xa4\xc4\x08\x4a\x65\x4f\x08\x3c\x19\xad\xf8\x8c\x62\x74\xca\xb5\xb9\x91\xf4\x4d\x84\xdb\x25\xbc\x8e\x02\xb9\xe3\xed\xbb\x7e\x48\xc8\xc7\x5d\x6f\x9f\xd2\x59\xc9\x69\x8c\xd8\xbe\x30\x71\xa6\xbb\xd2\x58\xa4\xc9\x08\x77\x6d\x67\x9e\x4b\x34\xa6\x68\x91\xc5\xad\x66\xb7\x9e\x34\x4d\x13\x15\xfc\xd8\x6c\xe0\xae\xfc\xae\x7c\xa0\xbc\x61\x44\x24\x15\x6e\xae\x35\x17\x3f\x47\x8c\xf0\x25\xe5\x1b\x74\x9d\x0e\x72\xef\x66\x63\x61\x3a\x96\x33\xde\xfa\x05\xb4\x57\xe7\xa2\x37\x31\xf2\xb5\xdb\x81\x2e\x66\x45\x2b\x25\x78\xa6\x82\xe8\x48\x06\xaf\x87\x31\x9c\x55\x87\xeb\xa2\xb3\x83\x71\x83\xb0\x47\x8b\x20\x69\x9a\xe2\x30\x24\xe1\xce\x19\x40\x69\xdc\xac\x7b\xd7\xab\x76\x76\x7b\xf7\xb6\x3b\x1f\x40\xab\x3d\x0f\xce\x9f\xc0\x93\xed\xa3\x35\xc0\x0e\xb1\x4d\xbb\x67\xf2\x1b\x47\xcc\x84\x32\x50\x04\x7b\xa8\xca\xb2\x59\xf5\xf1\x0b\x3e\x88\xb1\x3a\x7a\xb1\x80\xb3\x66\xaa\xa4\x01\x7f\xc0\x43\x46\x07\xea\xa7\x75\x91\xdf\xa3\x17\x55\xb5\x9c\xac\x3e\x82\xaa\xc5\x28\xde\xf2\xbd\xaf\x13\x5d\xe6\xea\x23\xbd\x65\x43\x68\x7d\x00\x0e\x53\x79\x3c\x86\xa1\xb3\x02\x0c\x65\xa4\x63\x0d\x15\x4c\x4e\xf5\x00\xd3\xe3\x6b\xdc\x26\x15\x50\xc2\xe4\x0f\xe5\x52\xe8\x78\x93\x91\xab\x7b\x34\x72\x6e\x31\x46\x7d\x30\xa8\xc5\xcf\xb3\x72\x49\x58\x31\xd4\x39\x85\x1b\xce\x96\x84\xb3\x7c\x6d\xe3\x60\x7e\xd0\x4c\x8b\xe9\xa1\x75\xc4\xef\xf7\x79\x04\xd7\xf2\x9a\x7e\x68\x78\x52\xf9\xe7\xde\x53\x3b\x42\xa2\x3c\x72\x33\xe6\x18\x8f\xdc\xed\xe4\x87\x81\x6d\xba\x2e\x8e\xde\xa6\x41\x89\xd5\xb9\x4f\x7a\x84\xed\xd2\xb7\x51\x87\xb7\xc0\x4c\xa1\x36\x6c\x60\x5b\xab\x7c\x7d\xd4\x3e\x0d\x2e\xa4\x6b\xa3\xba\x42\x26\x43\x3b\x25\x2a\xdc\x2a\x3b\xea\x88\x73\xe4\x6d\x96\xa8\xba\x76\xeb\x5b\x9a\x63\xfc\x3d\xd4\x8c\xd6\xa9\x5d\xbb\xe5\xd0\x32\x03\x9b\xef\x49\x5f\x3c\x4b\x76\x3b\x20\xbe\x28\x4d\xef\x47\xb0\x6a\x0c\xc2\xa5\xb3\x64\x57\xad\x58\x8d\x4a\x5b\x53\xb8\xa7\x6b\xb5\xdd\x19\x9a\xbc\x93\x52\x2e\x90\xc6\x76\x16\x93\xf0\x85\xf8\x3e\x31\xde\x09\x76\xcd\x73\xc8\x71\xbf\x0c\x14\x62\x7c\x32\x15\x97\xbd\x22\x45\x59\xb0\x29\xc9\xbf\xa5\x24\xa3\xfc\x17\x74\x6d\x5d\x17\x9c\x48\x94\x26\x5a\x2c\x8d\x27\x68\x41\x4c\xa7\xd4\x06\x49\x28\x93\x0b\xca\xcd\xcc\xf8\x1e\x49\x71\xe9\xd6\xfa\x3d\x93\x0b\x95\xb0\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\xb1\x07\xbb\xf8\x3e\x69\x20\x18\xa7\xc0\x6c\xdf\x54\x3e\x2a\x8d\x6c\x0d\xc3\xe1\x7f\x6a\x1f\x75\x48\xfa\x64\x63\xf3\x25\x7d\xf0\x46\xeb\xe9\x55\x7a\xc2\xc4\x98\x60\x42\xa6\xf7\xb8\x3d\x6b\x7b\x66\x74\x2c\x1f\xd7\x5a\x50\x95\x1a\x49\xe1\xb9\xc4\x7d\x34\x59\x01\xc3\xae\x6c\xc2\xd0\xa5\xb3\x5b\x60\x82\xde\xb2\x84\x8c\x91\x5c\x47\xc6\x73\x22\x29\x87\x29\xa6\xad\xd0\x47\xa7\x3e\x4c\xcd\xa0\x2d\xec\x62\x7c\xad\xb5\x68\xaa\xf1\xbd\x2a\x8b\x62\xc0\x62\xd5\x9d\xac\xc5\x1a\xf7\x98\xac\xfe\x91\x43\x43\x61\x37\x28\x1b\xec\x7b\x30\x7e\x80\xb5\x11\x6d\xc1\x8a\xf0\x2e\x89\x62\xed\xb9\x7d\x47\x34\x0c\x36\xdd\xc6\xa3\x1b\x72\xb9\x6f\x3e\x1a\x62\x28\xae\xc3\xf5\x5b\x7f\xd3\xc3\xe9\xeb\x3a\xcf\xad\x23\xd4\xb8\xa3\x37\x4f\xfd\xb6\xeb\xe2\x80\x61\xf9\x8c\x1e\x32\x2c\x0f\x48\x23\x1d\x67\x0b\x1a\x03\x1c\x1f\x13\xb7\xf8\x58\xb9\x91\x8a\xba\xc6\x0a\x75\x82\xca\x4a\x31\xdb\x55\x1c\xb4\xc2\xe1\xdc\xd8\xe1\x0e\x53\x3b\xf6\x02\xd3\x1c\x03\x24\x1e\x35\xf3\x06\x5b\x2b\x32\x51\x54\xe2\xca\xc1\x9c\x8b\x1f\x6f\x84\x0c\x68\xb7\x67\xf4\x18\xed\x36\xac\xaf\x8e\x35\x42\x8c\x26\xe9\xd1\x6e\xfa\x68\x9b\xb3\xf7\x8c\x9e\xa8\xdd\x70\x31\xaf\x15\x32\x47\xaa\x37\xec\xea\x4c\x11\x54\xba\x27\x29\xb8\x2a\x5f\x77\x69\x38\x7f\xdb\x7e\xbc\x51\xd2\x6f\x3b\x5e\x17\x47\xd8\x8e\x87\x37\xc4\x33\x21\x07\x76\x78\xd0\x76\x6c\xed\xda\xd0\x3a\xba\x4d\x12\xb3\xc4\xe3\xb6\xec\xd4\x6c\xce\xb0\xed\x68\xb0\x50\x3a\x55\xdc\x95\xbe\x39\xa2\x4f\x4a\x97\x3c\x37\xf3\xe0\x39\xd1\x8c\x3a\x00\x25\xbe\xa7\x6b\x01\x6f\xdf\xd9\x18\xdf\x01\x78\x47\x65\xc3\x96\x19\x9c\x1d\x32\x85\x94\x2a\xa8\x08\xe3\xcd\xe4\x61\x60\x23\x7e\xf7\x8d\x81\xa4\xd0\xdb\x98\xf0\xd7\xca\x46\xfb\xa6\xf2\x31\x55\x34\x89\xef\x93\xd4\x44\x36\x93\xaf\xc0\x46\xfd\x02\x0d\xd8\x05\x3c\xd4\xa3\x36\x47\x5c\x7c\x0b\x85\x28\xc2\x54\xef\x5a\xb6\xd7\xd9\x32\xc3\xb8\x99\x5d\xc0\xcf\x4b\x56\xc4\x67\xcb\x6c\xd4\x34\xdd\xe0\x98\x58\x8d\xc4\xa8\x49\x62\xc1\x19\xca\xa0\x6d\x62\x82\x66\x7a\x27\x8f\x0d\x89\x7d\x7b\x77\x77\x63\xbc\x05\xdb\x76\xf8\xdf\x38\x0c\x55\x8e\x5e\x53\xb9\x50\xec\x05\x97\x10\x91\xaa\xca\xd9\x54\x55\xa5\xa8\x42\xbf\xaf\x60\xba\x20\x5c\x50\x79\x59\xcb\xd9\xf9\xcf\x22\x17\x49\xc3\x59\x8d\x3b\x6b\x52\xf1\xc8\x58\x0b\xd3\xa2\xce\xec\xe1\x08\x1b\x02\x2b\x0b\xa8\x38\xcd\xe8\x8c\x15\x34\x53\x05\x15\xc2\x9c\xb9\x9d\x69\x0e\xc6\xd5\xda\xf5\x3c\xed\xb8\x9a\x5f\xe9\x61\x2d\x12\x36\x83\x54\xc1\x57\xc6\xbb\x27\xb7\x76\x62\x3b\xc8\x3b\x6f\xdf\xf5\x43\x57\xfb\xdf\xf5\xda\x04\xdb\xf4\x1c\x68\x9d\x8a\x56\xac\xad\x7b\xd0\x35\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xfe\x21\x4f\x66\x92\xf2\x78\xf7\x8d\xbc\x6a\xb6\x36\xf6\xb6\x39\x51\x80\xf6\x57\x79\x54\xa4\xcf\x84\x7c\x54\x54\x6f\x89\x84\x59\xd6\x8f\x68\x3d\xbd\x2e\x6b\xc4\x21\x09\x3d\x8b\xc2\xa4\x2c\x2e\x2e\x7b\xc9\xec\xba\x4e\xb0\x4c\xa4\x98\x23\x40\x33\x2c\x7d\xaa\x9b\x4c\x18\x7b\x69\xc7\xc5\x68\x74\x99\xee\x58\xd0\x3b\x81\xbf\x86\xbb\xf2\x0d\x16\x2c\x6e\xb7\x51\x92\xde\x10\xb9\x68\xf5\xc1\x86\x3b\xba\xac\xd0\x2a\x56\x3d\x2c\x3b\xf5\x94\x7f\xa9\x00\x62\x3b\x82\x68\x30\xda\x33\x70\x9c\x35\x87\xcb\xf3\xa6\x54\x29\x15\xa7\x1e\x74\x47\xbd\xa3\xd8\xf1\x1b\x9d\x19\xb3\x6a\x58\xbf\xee\x0a\x26\x06\x2a\x59\xd0\x04\xd9\xfc\x9f\x46\x68\x2c\x8d\x51\xe5\x33\x8d\x4e\xc1\x29\xbf\x41\x9b\x05\x36\x99\x66\x67\xfc\x1e\xdf\xf3\x11\xfa\x1e\x19\x9d\x91\x3a\x97\xa8\xed\x34\x83\xe0\x89\x54\xa1\xc6\x72\x06\xbb\xb2\x60\x04\x04\x26\x65\xa6\xdc\x3f\x94\x0d\x3a\xf5\x85\x4e\x60\xa4\xe6\x89\x9c\xdf\xb8\x42\x29\x8b\xa0\x54\x7b\xaa\xb0\x8b\x13\xed\x9d\x10\x10\x2a\xd5\x0d\x48\x0f\x04\xf5\xe7\x5f\x7e\x99\xc2\x73\x93\x0c\xc3\x9e\x7e\x8c\x54\x9f\x1b\xca\x55\x25\x35\xf6\xa8\x78\xb9\x62\xe8\xd8\x2e\xd4\x1b\xac\x12\xc8\x73\xcc\xbd\x2b\x6c\x75\x0e\x12\xfb\x35\x36\x99\x0f\x1a\xa1\x78\xd0\x71\x15\xe9\x0b\xc2\xc5\x82\xa8\x0a\x30\x8b\xff\x52\x37\x61\xfa\x5e\xd4\xd3\x29\xa5\x99\xd0\x9e\xd4\xcf\x6f\x5f\xbd\x34\x05\xd9\x99\xad\x9e\xb6\xae\x98\x5a\xab\x43\x07\xf3\xa1\xfd\xcb\xd2\xd9\x7e\xac\x87\xe7\x23\xeb\xe0\xb9\x95\x35\x2f\x5b\xd0\x80\x15\x42\x52\x92\x59\x9a\x69\x21\xe9\x4b\x88\x2e\x43\xc4\x15\x8e\x8c\xe0\x41\xd7\xbb\xb5\xd9\x40\xd9\x8c\xb8\xab\x23\x78\x8f\xc7\xcf\x27\x89\x16\x3f\x98\x72\xac\x28\xdf\xa8\x5d\xbc\xc0\xb5\xd8\x0d\x45\x4b\x84\xcd\x2c\xb5\x90\x80\x5a\xd1\x62\x97\xb8\x4d\xdb\x46\xcf\xb2\x19\xe0\xab\xa7\x6a\x4a\x33\xf4\x5a\xc7\x4c\x1d\x20\x3b\x0e\xc9\x1d\x27\x5f\xd9\x19\xb0\xdb\xa5\xa7\x73\x11\x6d\xb8\x74\xe0\xac\xbb\x1f\x3c\xa4\x9a\x6d\xe2\x24\xbd\xa5\x32\x8e\x8c\x20\x3c\xbf\x5b\x57\x34\x1a\xf9\x2a\x4f\x2f\x60\x61\x99\xcc\xc7\xbf\x2d\x1e\x2c\x1f\x36\xeb\x40\xab\xc3\x33\x39\x2c\x0c\xd3\x53\xc4\x8a\xb0\xc1\x2e\x2e\xf7\xa3\x8e\x9e\xe9\x37\x54\xc6\xf7\x36\x35\xb8\x0d\x03\x75\x34\x2e\x74\x85\x6a\xaa\xd9\xe1\x39\x9a\x8e\x05\xc9\x3d\x25\xa1\x70\x17\xd3\x01\xac\x3d\x36\x6b\x10\x57\xc0\x2f\x41\x4c\x0d\x64\x7c\x6d\x9c\xc6\x87\x54\x31\x85\xc1\x18\x3b\x26\xae\x31\x46\x6a\x27\x28\x6f\x1a\xbe\xd3\xbe\x0c\x8f\x27\xf5\x0c\xde\xbe\xc3\xa2\xdb\xc4\xf0\xfa\x26\x54\xb6\xda\x03\xf8\x2c\xe4\x62\xdc\x96\xcf\xde\x14\x66\x67\x11\xc2\x08\x3e\x7f\x48\xbe\xda\x8d\x81\x6b\x2b\x45\xb0\xdf\x52\xb8\x84\x9f\xfd\xff\xbf\xfc\x0b\xcd\x42\x39\x2d\x70\x4c\x02\x7f\xa5\xdf\x61\xd7\x00\xd1\xb8\x84\x49\x3d\x7b\x7b\x81\x8d\xef\x8c\x9a\x33\xb2\x12\x2b\x48\x14\xdd\x66\x71\x64\xa5\x03\xe0\xa2\x54\x2a\xf7\x02\xc3\x57\x98\xc9\xad\xd0\xdc\x81\xa2\x2c\xce\x91\xaf\x9c\x21\x8f\x1d\xa3\x11\x02\x37\x69\x5a\x03\xd5\x14\x01\xbf\xa4\x0f\xf1\x83\x3e\x17\x8a\x46\x4a\x86\xfa\x6b\xb7\x85\x03\x9b\x30\x50\xbd\xf0\x19\xe5\xcb\xaf\x71\x96\x0b\x23\x40\x7f\x6d\xc4\x39\xee\xbb\xe9\x45\x24\x13\x33\x86\x77\x45\x16\xd4\x49\x43\x25\x48\xbd\xcd\x6d\xdc\x0c\x01\x4c\x5d\xeb\xb0\x77\x5b\x8e\xa9\xdd\x4e\x75\x72\xc9\x9b\xd4\xa1\xaa\xd0\xc2\xfb\x08\x76\x2a\x9c\x29\x0c\xac\xec\x05\xf0\xf3\xf9\xce\x24\xb7\x3c\x12\x2f\x1a\xa0\x89\x27\xf3\xe2\x04\xda\x35\x72\x8b\xb4\x99\xa1\x67\x74\x73\xac\xb0\xd1\x9c\x9d\x16\x08\x83\x54\xd8\x8a\x9f\xef\x46\x18\x0e\xda\x24\x5e\x4c\xea\x80\x51\xe2\x82\x12\x83\xda\x7f\xd7\xc9\x55\xd8\x77\x27\x48\x54\x1e\x55\xdf\xee\xc1\x31\x28\xfc\xce\x8d\xae\xf1\xfd\x57\x3b\xcf\x0d\xe1\xb4\x90\xc6\x27\x74\x7c\xaa\x2a\xcf\x50\x1d\x21\x56\xb6\x55\x41\x46\x0e\x3e\x14\x7f\x0f\xbc\x10\xc5\xe0\xb2\x3a\x7d\x5e\x38\x33\x0a\x46\x75\xe9\xf7\x77\x83\x8c\xce\x28\x07\x9e\xa2\xd4\x4e\xaf\x30\x50\x89\x02\x48\x49\x0c\xf4\x85\x1b\xf7\x77\x67\xad\x06\x32\x4a\x6e\x34\x82\xf0\xc0\xbb\x84\x9b\x29\xd8\x7f\x4d\x49\xf6\x24\xcf\x63\x0d\xfc\xb8\xa2\x46\x5b\xc5\x3f\x43\x85\x37\x82\xc8\x48\x02\x8e\xca\xd6\x1a\x3c\xb8\x32\x4b\xce\xc8\x48\xea\x1d\x41\xf4\xa5\x5a\x5b\x50\x5b\xa1\x86\xae\xd1\xc5\x25\xb8\x5b\x2b\x8d\xb8\x33\x76\x9e\xea\x1e\x3c\xc9\xf3\xf2\xe1\x86\x70\xc9\x48\x8e\x51\x35\xc9\x6b\x63\x14\x3e\x63\x62\x4a\x78\xf6\xa6\x50\x37\x8c\x2e\x9a\x37\xb6\xb2\x03\x97\x7e\x09\xfe\x84\x7b\x22\x15\x73\x8b\x7b\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\x6a\xd0\x68\x11\xd3\x1d\xd8\x4d\x07\x59\x0d\xf5\x3e\x4a\xe6\x6a\x82\x04\x9e\x42\x7c\x4a\x32\xc3\x0e\xe6\x1d\x22\xd0\xa0\xe5\xbc\x75\xf4\x28\x6f\x08\x27\x4b\x61\xdd\x95\x5f\x11\x2e\x62\x9e\x98\x62\x9a\xe6\x3d\xfa\xf6\x1f\x6a\xca\xd7\x4d\x77\x9e\xbe\x79\xfd\x5d\xfa\x4b\x6c\x8c\xed\x00\xaf\x4b\xe8\xfb\x30\xba\x90\xf5\xe2\xb2\xe1\x5a\x75\xe1\xc2\x38\x30\xaa\x14\xa6\xb0\xdd\xd2\xef\x4a\x6d\x58\x43\xa4\x16\xa9\xfb\x60\x9c\x55\x41\x49\xbf\xa1\x85\x9a\xd4\xed\x26\x7a\x37\xad\xa0\xae\xfb\x35\x8c\xc2\xab\x82\x96\xb3\x3d\x3c\xe8\x87\x7d\x3c\xd4\xb2\x7e\x0c\x22\xee\x58\x7d\xce\xe9\x87\x26\x61\x6d\x9c\x16\x15\x49\xb6\x5d\x9b\xc8\x60\x87\x43\xd4\x29\x31\xfb\x52\x95\x5a\x3e\x0a\xeb\x1d\x38\xbd\x4e\x84\x92\x9f\xbb\xde\x80\xf6\x8d\xf8\x09\x69\xc8\x0e\x04\xbb\x64\x5f\xa7\x6d\xdd\x97\x99\x74\x26\x52\x9f\xa0\x78\xb1\x27\x26\x76\x85\x84\x93\x05\x6f\x04\xbd\x41\x01\x83\xf2\x52\xf8\xe2\xe3\x8d\xa0\xd7\x45\xbd\x7c\x59\x2f\x27\x94\x8b\x8b\xe6\xc5\xf5\x92\xc9\x37\x45\x55\x56\x35\xba\xc4\x99\x13\x2b\xdb\xb0\x25\x4f\x1b\xdc\x2c\x3a\xae\x34\x3d\x8d\x15\xaa\xe9\x0b\x2a\x04\x99\xd3\x64\xa8\x78\xc1\xb2\xc1\xfb\x91\x91\x56\xce\x9c\x54\x96\x94\xd7\xcb\xcf\xa4\xba\xfa\x45\x61\x8c\x81\xae\x18\x4a\x77\x1c\x71\x4f\x0b\xf5\xa5\x54\x1b\xdb\xdd\x9a\xe2\x4a\xd8\x0d\x25\x51\x11\xf0\x7e\x02\x75\x41\x04\x2c\x48\xa6\xc7\xf6\xa5\x4c\x55\xa2\x2e\xc3\x32\x4d\x86\x51\xe1\x86\xbf\xfd\xab\xbe\x72\x41\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\xa9\x45\x66\xc6\x68\xab\x0b\x2b\x5a\x74\x8c\x13\x8a\xde\xb8\x28\x35\x90\x76\x5e\x76\x30\x23\x3b\x98\x67\xbd\x1f\x39\x0a\x79\x9e\xca\xe0\x90\x1d\xfc\x55\x4a\x76\x1f\x06\xca\x67\x24\x77\x5d\xd0\xe6\x4a\xd5\x74\x81\xb2\x2c\x55\x6f\x48\x2e\x4a\x20\x59\x66\xce\xb0\x92\xf6\x50\xf3\x3c\x1c\x4e\x0c\x47\xa6\xeb\x39\x5e\x3c\x1e\x19\x21\x7e\x43\xe4\x22\x39\x34\xd0\xed\x0a\x16\xe2\x23\xcf\xa1\x10\x89\x92\x8f\xce\x20\x23\x08\x93\x34\xb1\x6d\x27\x64\x90\xbd\xd1\x4d\x88\xb5\x23\x81\x5c\x00\xf6\x34\xd2\x0b\x72\xb6\x42\xab\x95\x48\x43\xb5\x65\x29\x55\x7c\x01\xc3\x07\xa4\xc0\x7b\x5b\xdf\x63\x11\x7e\xa5\x6f\x88\xe9\x36\x94\x93\xd3\x72\x49\xf5\xc5\x85\x66\x92\x8c\x89\x29\xde\xbb\x5f\x83\x58\x0b\x49\x97\x23\x10\xaa\x1e\x3c\x67\xf7\x34\x5f\x5b\xa6\x43\x36\x82\x68\x51\x0a\x79\x81\x1c\x1d\x19\x01\xda\x5a\x41\xec\xa6\xb2\x25\xc5\xbd\x91\xdb\xd3\xf3\xcb\x6c\x06\x9f\x58\x96\xfb\x96\x88\x1b\x4e\x67\xec\xd1\xcd\x38\x82\x08\x4f\x65\xa4\x3d\x72\x87\xc7\xa5\x6e\xbe\x18\x8f\x23\xf8\x7f\x8e\x12\xc8\x95\x41\xed\xa4\x60\xcd\xf3\xf4\x06\xad\x13\x07\xed\xe8\x4a\x2d\x34\x2e\xea\xd0\xdc\xdc\x45\xcf\xb2\xc3\xe3\x30\xf9\x55\x7d\xc5\x21\x7a\x59\xea\x8d\xf4\xc2\xdb\xba\xc4\x5e\x11\x44\x07\x83\x10\xd0\x43\xc9\xef\x47\xa0\x43\xe6\x60\x34\x3d\x3a\x7e\x78\x07\x8f\x6b\x7b\x53\xbf\x65\x48\xc2\xa8\x09\xdb\x2a\x73\xe1\x78\x5f\x28\xd8\x6c\xf0\x46\xef\xae\xf3\x63\x90\xc6\xb7\x2a\x02\x68\x8d\x0d\x14\xa8\xac\xc8\xe8\xe3\xfe\x88\x2f\xed\x18\x93\xcc\xdf\xf5\x2a\x86\x72\xf9\x68\x6c\xa8\xff\x06\x03\xe3\x3a\x6e\xf3\x7a\x09\x7d\x93\xab\xef\x0d\x1b\x1b\x0b\x32\x98\x96\xd5\xfa\xcd\xeb\xef\xe2\x7a\x04\x7e\xff\xa7\x44\x50\x14\x1f\x18\x3e\xb6\x5d\x1b\xeb\x60\x1f\xab\xb6\x5d\xda\x8e\x11\x1b\xca\x74\xa4\xfd\xf7\x72\xfa\xc1\x6e\x5a\xdf\xda\xb6\xcd\x6e\xb6\x7e\x37\x3f\x9d\xb8\xea\xcc\xf4\x0f\xee\x3b\x9c\xff\xa9\x76\xbe\x2f\x90\x6e\x2a\x09\x76\x89\x68\x5f\x9b\x92\x88\xc1\xf5\x7a\x15\x06\x4a\xf2\xd8\x7d\x9c\x10\x41\xe1\x0c\xcf\xf0\x9b\xd7\xdf\x8d\x54\x72\xc9\xa8\xd6\xc4\x35\xe3\xf9\x2d\xd0\x2e\xb8\xb8\x84\x33\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\xe3\x1b\x13\x60\xb8\x92\x8f\x36\x35\x7a\x8b\xf6\xed\x54\x95\xb8\xd7\xdc\x84\x6a\x90\x1d\xed\xc1\x95\x25\x54\x75\x9e\xab\x76\xa3\xe7\x68\x86\x16\x86\x80\xb2\x46\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xa5\x35\x61\x7d\x07\x14\x6d\x05\x13\xee\x48\x01\x5e\x96\xd2\x5c\xd9\x45\x90\x08\x4b\x49\x8a\x05\x59\x51\xb0\x9f\xe2\x18\x36\x49\xd4\x3c\x13\x95\xad\x32\xb7\xd6\xd4\xb5\x1c\x94\xfc\x16\x35\xbc\x00\x6d\xe2\xfb\xc4\x96\x25\x29\xdb\x03\x57\xb5\x76\x81\x6a\x97\xda\xf3\xef\xd4\x51\xee\x14\xae\x49\x2d\xb7\x69\xa7\xd3\xc9\xde\x9d\x91\x7e\x7d\xe0\x47\x7c\x3a\x3a\x99\x8c\xdb\xc0\x9d\xcb\x23\xac\xc3\x9f\x2c\xa1\xec\x2c\x1e\x13\xf9\xf5\xf3\xc8\x4e\x67\xe8\xbc\x6f\x82\x5c\x85\xb4\x46\x89\xd2\x57\x1e\x73\x50\x60\xef\x86\xa4\x3a\x85\xcd\x60\x44\x6a\xd7\xbf\x32\xe1\x28\x6d\x8d\xed\x86\xa4\x6c\x94\xc6\x4c\x63\x47\xeb\xf0\x4c\xe3\xfb\xec\x86\xa4\x4c\x33\x3a\xbe\xda\xcc\x33\x59\x12\xf7\x06\x0d\x6a\xa2\xc2\x01\x7f\xf6\xe5\x97\x7e\xba\x68\x04\x0f\x26\x27\xa2\x02\x9e\x15\xa7\x68\xe4\x10\x75\x1e\x48\xa1\x60\x29\xa3\x40\x31\x2a\x91\x12\x3f\xaa\x80\xe7\x47\xaf\xc2\x3f\x7f\x26\x80\x0d\x4b\xed\xc2\x34\x38\x5a\x24\x0e\x86\xcc\x6c\x79\x48\x47\xc8\xac\x93\xec\xc3\x11\x33\x3d\xe9\xe9\x21\xb3\x53\x22\x60\x97\xd8\x25\xbd\x7e\xf5\x75\x6f\x10\x0c\xa3\xd8\x4d\x6c\x1c\x19\x43\x91\x00\x90\x8e\x6b\x3f\xea\xb5\x63\xfe\x74\xc1\xc2\x80\x5a\x47\x3c\xcd\x01\x35\xe0\x34\x3c\xee\xe5\x22\xe0\x93\x56\xe2\xe3\xd5\x2f\x06\xa7\x98\xc5\xbb\x99\x88\x64\x04\x91\xc7\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\x35\x87\x9b\x1b\xcd\x11\x5c\xf0\x21\x6e\x0e\x4f\x8e\xeb\xf5\x86\xf5\xfa\xa2\x7a\xdb\xf0\xf8\x98\x9e\xa8\x92\xaf\x0e\x6f\x82\x4f\x14\xbb\x60\xd3\xe9\xf3\xa6\x92\x39\x68\xc7\x65\x7c\x01\x74\x5d\x9c\x28\x80\x5c\x4f\xcf\x30\xd8\x33\x09\xce\x8d\xa8\x3a\xc2\x84\x1a\x8c\x05\xb9\xe8\x79\xe8\xbc\x5d\x13\x0e\x02\x72\x7c\xc0\x5c\x7d\x5e\x02\x4f\xfe\x8a\x70\x56\xd6\x02\x50\x9d\xa0\x15\x86\x7a\x39\x18\x8f\xf7\x95\x6f\x8c\x76\xc4\x08\x54\xc0\x4c\xe7\xb4\xf1\x90\x24\x56\x14\x1c\xb1\xac\x61\x59\xa0\xba\xf4\x94\x90\xb9\xd0\x11\x7e\x23\x6a\x45\x72\xdc\x8b\x28\x32\x91\x49\xdd\x34\xfc\x79\x80\x1d\x62\x98\xd9\x34\x93\xdb\x08\x27\xa7\x1f\xc2\x70\x47\x7d\xf5\xba\xc6\xbb\xfd\xfa\x7d\x6f\x1d\x95\xb8\x55\x32\x1b\xef\xd0\xcb\x05\x06\x7e\xc9\x92\x4a\x4c\xdb\xe0\x45\x6f\xb9\x40\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xe7\x92\xa8\xa0\x2a\x3c\xd4\x8a\x75\xe2\x2c\xb7\xba\xdd\x05\x3b\x6d\xc7\xed\xee\x55\x51\x34\x19\xa3\xb1\xc2\xbf\xcb\xdb\x43\x5c\x86\x93\x07\xbb\x32\x08\xe5\x5c\x59\xe7\x59\xf1\x85\x6c\x4e\xaf\x5e\xe5\x67\x1f\x22\x6d\x7c\x5a\x09\xaa\xa9\xf2\x9a\x3c\x18\x23\xb3\xb6\xbf\xdd\x3b\xf7\x02\x7f\xec\x50\x4e\x31\x5e\x9b\x74\xaa\xe0\xa2\x33\x62\x8d\x02\x4e\x2e\x2b\x93\x9e\x35\x1b\x2c\x97\x55\x9b\x9c\x7d\xb1\x6b\xb0\x74\x3c\x87\xe3\xc2\xc6\x6c\xa6\x0e\x84\xe9\xf6\x9a\x56\x14\x63\x8c\x76\xd8\x73\xf1\x94\x78\x12\xb5\x81\x1c\x5f\xd9\x8f\xec\x99\x9e\xdf\x94\xd8\x0b\x22\xbb\xfd\x51\x62\x47\xe8\xa5\xbe\x8d\x5c\x88\xfa\x97\x2e\x1e\x6f\xea\xb0\xdf\x69\x16\x4e\x5d\x8f\x2b\xb2\xa4\xa6\x70\xbb\x99\x95\xe6\xc2\x3d\x1b\x83\xcf\xbb\x62\xd1\x37\xde\xe6\x43\x0c\x1a\xe9\x93\x2c\x8b\x07\x50\x19\x79\x5f\xa6\x8a\x57\x18\xf3\x6a\xf2\x26\x2d\x6e\x44\x9c\x10\x23\x24\x46\xc9\x21\x46\x7d\xb9\x47\xb4\x64\x97\xae\x16\x7f\x45\x77\xf3\xee\x56\x12\x7e\xfd\x58\xf1\xed\x96\xcd\x7a\xc9\xe0\x18\x1a\x1a\xcf\x2a\x08\x02\xb9\x34\x17\xd8\x76\xea\x40\xfa\xc0\x98\xf5\x74\x1c\x92\xce\x73\x62\x8e\xc9\x8c\xb0\x5c\x17\xea\xd8\x53\xd2\x07\x3f\x6a\x13\xcc\x88\x3c\x2b\x21\x62\xb9\xac\x92\xf0\xa4\xdd\xd0\x10\x92\x21\xaa\xc1\xb6\x45\x13\xbd\x2d\x96\x40\x9b\xcd\xf8\xec\x0f\xff\xfa\x37\x3f\xfc\xfe\x9f\x7f\xf8\xa7\x7f\xfb\xe1\xef\x7f\xf7\xc7\x7f\xfc\xdb\xff\xfc\xf7\xff\xf8\xc3\xef\xff\xee\x87\x7f\xf9\xdd\x1f\x7f\xf7\x0f\x67\x63\x38\x1f\xde\x13\x47\xb0\xbe\x25\xc3\x27\x97\x3e\x11\x3f\x82\xcd\xce\xfa\x40\xef\xb1\x9f\xbf\xb2\x8f\x98\xe8\xd0\x3c\x6d\x32\x36\x75\x83\x3b\x4f\xe6\x61\xbb\x6d\x8b\xa4\x12\x33\x57\x7d\xb9\xac\x7d\xb9\xa4\xba\xf7\xcb\xa5\x06\x6c\xe5\xf4\x86\x1e\x62\x6c\x36\x68\xed\x9b\x3b\x82\xa5\x7a\xdb\x3e\x83\xa6\x6d\xf7\x10\xa2\x1d\xbb\xc2\x3b\x38\xba\x1c\xc7\x50\xc7\x74\xf6\xc8\xa3\xea\xbb\x2d\x10\x95\x9f\x33\xda\xd7\xf3\x1c\x07\xce\xe2\x8a\xe4\x69\xa3\xce\x0d\x18\x43\x78\x3b\xb6\xfb\x40\x7e\xcc\x91\x6c\xc1\xb7\xc7\xd1\xb1\xd0\xd0\x91\xdc\x63\x29\x03\xea\xd0\xa9\xec\x66\xcf\x9f\x98\xb8\x47\xa3\xe6\xb1\xfb\x10\xe1\xf7\x70\xf7\xb9\x7d\xe7\xb1\xf5\x64\x1e\x54\x60\xb6\x31\x0b\x14\x22\x70\x09\x06\x4d\x6d\x51\xc6\xca\x82\x32\x2c\x5f\x78\xa6\x9c\x0a\x67\x46\x73\x2a\xf5\xa7\x15\x7d\x53\x01\x0d\xd3\xb6\xa5\x20\xcb\xd7\x54\x7e\xac\x71\x78\x8c\xc5\x70\x7e\x20\xcf\xdc\xce\x77\x8f\xcf\xe0\x55\x91\xaf\xd5\x67\x9a\x10\x61\xd5\x5b\x98\x7c\x97\x58\xa0\x41\x05\x13\x17\x4c\xc2\xb1\x98\x82\xc0\x0b\x8b\x8a\xb2\xa5\x5c\xf8\x35\xa0\xe5\x92\x49\x34\x37\xb2\x5a\x7d\x41\x06\xdd\x56\x56\x50\x21\xe0\x6c\x6c\x66\x54\xcb\xef\x94\x5a\x07\x8c\x86\x46\x98\xb5\xf6\xcf\x1c\x97\x5d\x8f\xf0\xc5\x61\x7f\xb0\x71\x08\x7b\x53\xb8\xfd\x39\xdc\xde\x24\xae\x3a\x3d\x78\x85\xc2\xd9\xb4\x0e\x43\x27\x41\x0e\x7e\xec\x6b\xc8\xb4\xd5\x1e\x96\xf2\xe0\x31\xea\x82\xa2\x09\x3e\x5b\x45\x23\x50\x94\x6d\x0c\xdc\xa7\xd8\xc1\xc5\x24\xdc\x67\x34\x63\x2c\x12\x14\x58\x31\xfe\xb4\x9e\xcd\x28\x8f\x11\x57\xbf\xce\x19\xfc\x4a\x02\xe3\x9e\x06\xfb\xdf\x16\x3b\xf8\x65\x11\xf7\xa9\xd1\x63\x53\x75\x2f\x9f\xdc\xdd\x7e\xcc\x35\x0a\x5b\x6b\x86\xe3\x41\x87\x37\xdd\xb3\xb9\x5a\x89\xb8\x20\xa2\xc5\x08\x04\x5f\xe9\x67\xf7\xe9\x38\xe3\xd0\xed\x7f\xb5\xee\xd8\xeb\x91\x5d\x17\x1d\x6f\xeb\x89\x63\x00\xc4\x01\x35\x79\x4d\x6f\xeb\x89\x98\x72\x36\xa1\xf1\xce\xc5\x46\x23\x3b\xbd\xab\x4d\xe8\xe4\x75\xf5\x41\x69\xcd\x57\xfe\x67\x35\x14\x10\xfa\x42\xcc\xd5\x62\x93\x83\x9c\x65\x38\x04\xfd\xcc\x6e\xc4\xbd\x8b\x83\x1e\x1b\x6c\x36\xad\x2f\x4d\x90\x7b\xea\x6d\xd8\xb1\xdf\x72\xc1\x21\x47\x7c\xcb\xa5\x81\x7c\xf0\xce\x49\xeb\x3b\xb6\xa9\x23\xb0\xa9\xe4\x4f\xfc\xbd\xee\xf9\x86\xcb\x30\x04\x53\x91\xf0\x3f\xef\x53\x2e\xcd\xba\x0e\x5e\x22\x35\x4c\xea\xf6\xf8\x02\xda\x6b\xc6\xab\x17\x6e\xd9\x27\x7d\xbf\x05\x37\xca\xeb\x61\xf4\xd5\xc8\x5c\x41\xbf\x2e\x3a\xfb\x78\x29\xb7\xa6\xc7\x4e\x89\xcf\xa9\x1f\x78\xf1\x76\xd9\xab\xf2\x3f\xfd\x03\x2f\x1e\x1c\x57\x2f\x7c\x98\xb8\xde\xf2\x00\xe0\xac\x4d\xdd\x86\xb4\x7b\xdf\x6b\x31\x33\xed\xa6\x19\xfa\xe6\xf1\x02\xdd\x48\xb2\xcd\xa6\x4d\xf6\xee\x84\xcb\x52\xcc\x8d\x00\x7c\x21\xe6\xfd\xf1\xed\xfd\xd2\xcf\xae\x9b\x8f\x03\x05\xe4\x4b\x31\x4f\x9f\x29\xbd\xd7\x5d\xf2\xd8\x95\xa1\xb7\xbc\xdc\x73\x8d\xd2\x90\xc7\x04\x41\x9b\x9a\xb5\x0e\x7e\xd9\x8d\x53\xaa\x05\x1f\x51\xb3\x86\x31\x34\x28\x27\xbf\xc1\x5a\x0c\x13\x86\x14\x6e\xbf\xec\x27\x33\x5e\x90\x62\xad\x53\x2f\x98\x90\xb3\xb5\x19\xfa\xcb\x7b\x35\x86\x0c\x30\xff\x81\xe8\xa1\x00\x2c\x04\xc3\xec\x9b\xb9\xd8\x63\x84\x5a\x2f\xde\x3d\x49\x32\x9c\xd7\x58\xf4\x23\x28\xa6\x2d\x0d\xe6\xd2\x03\xdd\x71\x49\x4b\xe7\x16\x0f\xea\xf9\x71\x09\xfe\xc4\x66\x22\x9c\xa1\x01\x9b\x9c\x52\x5e\x83\x2b\x32\xa1\x6a\xdb\x76\x42\x79\x8d\x37\xfa\xc0\x07\x1a\x70\xf9\xff\xdd\x1f\x68\x68\xb0\xdb\xb7\x22\x7a\x15\xd0\x4d\x3d\xc9\x99\x58\x50\x7e\x4a\xf5\x4c\xf7\xd7\x19\x8e\xb5\x3e\x3e\xe6\xf3\x0c\xb6\xa2\x63\x68\xd8\xe5\x0e\x0f\xbd\xa4\x0f\x6e\x75\x4a\x49\x78\xdf\x69\x08\x82\x23\x0c\x9a\xd0\xab\xdb\x68\x1d\x05\xbf\x58\xe3\x19\x3d\xa4\x33\xf6\xab\x34\x76\x8b\x34\x5a\x45\xb1\x4e\xa0\xd8\x93\xd1\x59\x92\xd1\x29\x72\x8d\x2b\xe5\x21\xb2\x53\x32\x71\xfa\xc7\x17\x70\x61\x7d\xd9\xe5\x3e\xb1\xef\x92\xca\x3d\x54\xe9\x94\x7d\xc7\x7d\x7c\xc1\xea\x85\x3f\xd9\x67\x16\x7a\x50\x3e\x42\x55\x41\xbf\xae\xc2\x5a\xba\x23\xd4\x10\xe5\xdc\xce\xb7\xa7\x8e\xc6\x63\xd8\xd7\x48\xe3\x31\x6c\x3d\xe8\x76\x70\xaa\x0a\xea\xed\xe0\xcf\x3f\xdf\x7f\x97\x62\x4a\x53\x7d\xe2\xf1\x3d\x33\xd7\xc4\xde\x47\x3d\xd3\xd8\x34\xef\x3e\x10\x5b\xcd\x6b\x11\xe9\x48\x8d\x76\x7e\x3c\xe2\x58\xa5\xdc\x95\xb3\x1c\xd6\xca\xdd\xdf\x5a\xf2\x79\xd8\xe8\xe6\x6e\xd5\x6c\xd2\x67\x03\x9a\xb9\x7d\xff\xc6\xfd\x9f\xe3\x98\x12\x1e\x13\x21\x51\xae\x43\x8f\xb2\xc6\xad\xb6\x92\xfe\x85\x98\xef\xea\xea\x73\x85\xeb\x4f\xa3\xb0\x8f\xb5\xb1\x0e\x25\x0e\x2d\xc9\x7b\x15\xb4\x9b\x48\x9d\x08\x07\x2e\xf1\xb6\xe1\xbf\x06\x00\x87\x62\x7f\x90\xcc\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xdb\x48\x76\xf8\x99\xfc\x14\x6f\x88\xf9\x43\xf6\x4f\x4d\xcd\x2f\x40\x82\x4d\x0f\x3a\x80\xdd\xee\x99\xf1\xee\xd8\xee\x75\xb7\x77\x0e\x86\xe1\x2d\x89\x25\xa9\xb6\x29\x92\xae\x2a\xaa\x5b\xab\xe8\x92\xcb\x06\x48\x80\x00\x39\xe5\x10\x2c\x72\xca\x35\xc8\x39\x9f\x67\x27\xd8\x6f\x11\xbc\xfa\xc7\xa2\x44\x52\x92\x67\x36\x08\x82\x18\xbb\xb6\x58\xac\x7a\xf5\xea\xd5\xab\xf7\xbf\x38\xe3\x31\x5c\x95\x19\x85\x39\x2d\x28\x27\x92\x66\x30\x59\xc3\x84\xf0\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x0e\xae\x9f\x3d\xbf\x4b\xc3\xf1\x18\x5e\x53\x5e\x17\x05\x2b\xe6\xba\x03\x3c\xb0\x3c\x87\x72\x45\xf9\x03\x67\x92\x82\x5c\x30\x01\x33\x96\x53\xd5\xf9\x57\x94\x0b\x56\x16\x17\xb0\xd9\xa4\xe6\xf7\x76\xeb\xbd\x80\x67\x44\x52\xff\x2d\x3e\x6f\xb7\x61\x58\x91\xe9\x3d\x99\x53\x7c\x73\xa3\x7f\xbe\x24\x4b\xf5\x66\x3c\x86\x3b\x3b\x07\x4c\xcb\x42\x12\x56\x08\x58\x52\xb9\x28\x33\x01\xb2\x84\x25\xb9\xa7\xc0\x8a\x8c\xad\x58\x56\x93\x1c\x68\x91\x55\x25\x2b\xa4\x80\x19\x2f\x97\x20\x28\x5f\xb1\x29\x15\x23\x44\x83\xd3\x0f\x35\x15\x12\x48\x91\x01\xa7\xa2\x2a\x0b\x41\x41\xae\x2b\xaa\x20\x61\x57\x5c\x51\x29\x68\x03\x65\x04\x44\xc0\x03\xcd\x73\xfc\x97\x16\xd3\x32\xa3\x5c\x20\x00\x84\x97\x51\xf3\x3c\x2b\xb9\x19\xa8\xa0\x8d\x54\x03\x41\x4a\xcd\xa0\xac\x39\x88\xba\xaa\x4a\x8e\x94\x96\x9c\x14\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xb2\x40\x68\xb3\x92\x2f\x89\x14\x69\x18\xb2\xa5\xea\x11\x87\x41\x34\x59\x4b\x2a\xa2\x30\x88\x70\xed\xf4\x51\xe2\x4f\x85\x06\x2b\xe6\xe3\xdf\x88\xb2\xc0\x86\xd9\x52\xb5\xb3\x52\xff\x3d\x66\x65\x2d\x59\x8e\x0f\x05\x95\xe3\x85\x94\x95\xfd\x5d\x73\xd5\x2c\x24\x9f\x96\xc5\xca\xfc\x64\xc5\x5c\x44\x61\x18\x44\x73\x26\x17\xf5\x24\x9d\x96\xcb\xf1\xbc\x3c\xbf\x67\x72\x8c\xff\xb7\xb4\x88\xc2\x80\x14\xeb\x6a\x02\xd1\xbc\x2c\xe7\x39\x4d\xe7\x65\x4e\x8a\x79\x5a\xf2\xf9\xb8\xe2\xa5\x2c\x27\xf5\x6c\xac\xd6\x3f\xbe\x2f\xca\x87\x62\xac\x7a\x47\x61\x90\xd5\x5c\x2d\xf2\x84\xa1\xcd\x90\x28\x0c\xe8\xb2\x92\xa7\xcc\x6b\xfa\x47\x61\x30\x63\x34\xcf\x96\x44\xdc\x9f\x30\xda\x1b\x13\x85\x81\x90\xbc\x9e\xca\x13\x86\xdb\x01\x51\x18\x48\xb6\xa4\x42\x92\x65\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x9c\x54\x15\xe5\xe2\x04\x00\xcd\x90\xfd\x2d\xe5\x2c\xcf\xc9\x78\x59\x3f\x46\xed\x37\xd5\xfd\x7c\x4c\x39\x2f\xb9\xe2\xb4\x81\x89\x1c\xe7\xa9\x16\xcb\x7e\x03\x03\xd4\x0f\x44\x64\xb3\x39\x07\x36\x03\xfa\x01\xd2\xab\xb2\x98\xb1\x79\x7a\xe7\x4e\x42\x44\xf2\x3c\x82\xa8\x20\x52\x44\xb0\xdd\xb6\x71\xc3\xd6\x73\x56\xaa\x7f\xd3\x39\x72\x38\x82\xa2\x45\xb6\xdd\x1e\x05\x75\xce\xab\xa9\x85\xba\x87\xa7\x7a\xd9\xfb\x66\xbc\xa4\x92\x64\x44\x92\xdd\x49\x8f\x9e\x12\xe1\x37\x27\xbe\xe7\x7c\xb9\x0e\x16\x1d\x6f\x2e\x3c\xbb\x27\x00\xc0\xee\xd1\x51\x64\x69\x88\x8d\xbf\x4e\x98\x02\xbb\xb7\x70\x4c\xc2\x30\x5c\x11\x0e\x71\x18\xbc\x87\x4b\x98\x2d\x65\x7a\x5b\x71\x56\x48\xfd\xac\x04\x58\x7a\x55\x2e\x2b\xc2\xa9\x6e\x32\xd2\x27\x7d\x22\x4b\xa6\x5b\x5a\xcb\x4c\x5f\xd2\x87\x5b\xca\x57\x94\xeb\x97\x5a\x9a\xa5\x2f\xcb\xea\x2a\x2f\x45\xd3\x9a\x5e\x95\xd5\x5a\x3f\x68\xe6\x4d\xbf\xe7\xa4\x0a\x83\xf1\x18\xcc\x7e\x5a\x36\xd4\x32\x1e\xbb\x2a\x91\x94\x3e\x29\xd4\xb8\x46\xc8\xa4\xcf\xcc\x4f\x6c\x36\xe2\x23\xbd\xc6\x7f\xb1\xc1\x1e\xe9\xf4\x56\xfd\xc0\x26\xef\x98\xa6\x77\xf6\x37\xbe\x68\x8e\x1f\xf6\x66\xc5\xfc\x57\x24\xaf\xd5\xba\x3d\xb9\x92\x7e\x8d\xbf\x5f\x10\x71\x1f\x26\x61\x38\x3e\x3b\xea\x0f\x5c\x5b\x9d\x04\xb6\xe9\xf0\x9f\xb1\xd2\xa0\xcf\x0b\x20\xa8\x6f\x56\x94\x8f\x80\xc9\x2f\x04\xd4\x82\xce\xea\x5c\xa9\xa9\x59\x5d\x4c\x91\x0a\x02\xe4\x82\x48\x28\x28\x6a\xa9\x12\xca\x4a\xd9\x06\x50\xe2\xd8\x8a\xf2\x73\xab\x06\x10\xe0\x84\x08\x26\x52\xf8\xba\xe4\x40\x1f\xc9\xb2\xca\xe9\x08\xd6\x65\x0d\x4b\x36\x5f\x48\xa8\x88\x40\x15\xe9\x21\x2c\x4b\x20\x6e\x22\x3d\x4f\xc5\xcb\xac\x9e\x52\x81\xe0\x48\xa1\x38\x20\xfd\x96\x14\x59\x8e\x38\x3e\x30\xb9\x00\x4a\xa6\x0b\xa3\xe9\x21\xb6\xb3\x27\xf0\xc0\x38\xcd\xa0\xae\x10\x49\x02\xa2\xa2\x53\x36\x63\x53\xa8\x88\x5c\xa4\x10\x3f\x97\x08\x90\x09\xa8\x78\x39\x21\x93\x7c\x0d\x04\x96\x4c\x48\x6d\x25\x40\x46\x05\x9b\x17\x38\x94\x15\xab\xf2\x1e\xd5\x3d\x05\x64\x36\x36\xa5\xce\xaa\x50\x28\x52\x84\xd3\xac\x40\xf3\x00\xb0\x86\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x9c\xd1\x42\xb6\xa9\x2b\x4b\x98\x96\x79\x4e\xa7\xd2\x33\x50\xf2\x35\x4c\xcb\x42\x83\xa3\x99\x67\xae\xb0\x02\x17\x84\x00\x05\x2b\xe6\xb9\x36\x4c\x34\xad\x18\x52\x78\x49\x11\x0f\x1f\x5f\x56\x48\xca\x67\x64\x4a\xfb\x76\x02\x81\xb9\xc9\xba\x8d\xa4\x1a\x27\x6b\xac\x12\x65\x2c\xe0\x01\xbc\x32\xeb\x99\x96\xcb\x09\x2b\x14\x9d\x96\x06\x45\x6f\x63\x47\xc6\x94\x92\x35\x2f\x80\x49\xa4\x2b\x22\x38\x25\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x7b\x04\xdd\x84\xc1\x9b\xc2\xad\x8f\x66\x9b\x4d\x6a\x47\x68\x13\xd0\x48\x82\xcd\x86\x93\x62\x4e\xe1\x53\x06\x17\x97\xe0\xfa\xbc\xd0\x5b\x86\x72\x6c\xb3\xf9\x94\x99\x31\x76\x16\x00\x70\x4b\x4d\x6d\x63\xb8\xd9\x68\xe1\xaa\xad\x4b\xdb\x2c\x0e\x4f\x81\x0c\x0c\xb1\xb7\x88\x04\xbc\x49\xe3\xa9\x7c\x04\x63\xa5\xa1\x6a\xc0\x7f\x47\xc8\x30\x67\x9b\xcd\x37\x25\x22\x06\x9f\xb2\xf4\xb5\x36\x41\xef\xd6\x95\x5d\x60\x02\xf1\x4e\x0f\x6d\x98\x7a\x5d\x46\x5a\xc0\x25\xb0\x09\x03\x6b\xb7\xaa\x36\x44\x94\xa6\x1d\x2b\x47\x64\x70\xf2\x24\x0c\x50\x59\x71\x0e\x9f\x5c\x42\xc1\x72\x84\x10\x98\xfd\x2a\x58\xae\x80\x84\xc1\x36\xb4\x6d\x16\x7a\x7a\x10\xa7\x64\x84\xf0\xc2\xad\x23\x27\x12\xf3\x05\xb9\xf7\xc8\x13\x6e\x36\xea\x20\x7f\x2a\x29\x22\x9a\x6e\xb1\xf3\x39\xf8\x54\xfe\x54\xd2\x3e\x42\x23\xac\xae\x95\x09\x24\xba\xa4\x9d\x6c\x92\xec\x6f\x37\x6c\xdc\xe2\x70\xff\xba\x77\xc9\x3a\x06\xee\x44\x6d\xb6\x09\xc4\x96\x18\x7e\xb3\xa2\x98\xb7\x1d\x01\xa7\x1f\x70\x21\x06\x42\x1a\x1f\xda\xed\x30\x08\x56\x6e\xef\x84\xbf\x77\x88\x9a\x42\x25\x09\x83\x8e\x5d\xdb\xdf\x36\xdc\x37\xdb\xba\xd2\xdb\x11\x20\x5b\x37\xba\xd9\xdf\x1b\x54\x8e\x4f\xf2\xfc\xfa\x71\x4a\x2b\xa9\xf4\x94\xd0\x22\xd6\x51\x4a\x69\x28\x74\x59\xcc\xd9\xb4\x2f\x04\xa8\x6d\x24\x08\xc5\xb3\x09\x1c\xa9\x5f\xb0\x2c\xcb\xe9\x03\xe1\xda\x0b\x7c\x23\xac\x5f\x88\x4e\x50\x55\xe5\x6b\x14\x31\x28\x36\x25\x02\x5f\xba\xde\xca\xeb\xa2\x2b\xca\xd7\x6e\xdb\xf0\xbc\xa0\x04\x31\x6e\x9b\x82\xf7\xaa\x42\xad\x41\xf2\x7c\x3d\x72\xfd\x04\x4c\x49\x01\x13\xaa\x74\x0d\xcd\x70\xd8\x64\x0d\x05\x92\x5d\x96\xd8\x4e\x1f\xa7\x79\x9d\xd1\x4c\x7b\x81\x13\x8a\x28\xe0\x9a\x2b\x9a\xa5\x7b\xd4\x88\x1b\x9c\x46\x10\xdd\x4a\x22\x6b\x11\x8d\x20\xba\x61\xc5\x3c\x4a\xdc\xb9\x3f\x73\x04\x49\x7a\xc7\x3b\x0c\x3d\xaa\x8c\x1a\x6c\xd2\x34\x15\xca\x2c\x50\xcc\xc3\x0a\xd3\x7c\x71\x09\x4b\x52\xbd\xd5\xaf\xde\x69\xf2\x6f\xb6\xc8\x5e\xbb\x07\xa6\xe3\xb4\x04\x41\x10\x79\x6c\x14\x5d\xc0\x66\x3b\x0a\x03\xdf\x8c\xdc\x86\x61\x80\xba\xfe\x3d\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\x66\xf0\x7e\x04\xe5\x3d\xbe\xb6\x88\xbd\xa5\x8f\xef\xbe\x82\x4f\xca\x7b\xc4\x36\x08\x2a\x52\xb0\x69\xdc\x58\x78\xb3\x38\xba\xb6\x20\xec\xba\xe1\x8b\xcf\xc4\x17\x90\x95\x54\x40\x51\x4a\xa0\x8f\x4c\xc8\xaf\x40\x50\xea\x6f\xbc\xf3\x29\x95\x49\x8f\x48\x25\x89\xe1\xe7\x8c\xe6\x54\xd2\xd8\x62\xa0\xde\x35\x0b\x60\xc5\xb4\x41\xdf\xf6\x51\xc8\xa1\x19\xc8\x8a\xe9\xd1\x24\x63\x33\x05\xec\xf2\x12\x5a\xc4\x53\xb0\x82\xa0\x53\xa8\xc2\xa5\xb7\x86\xb8\xb3\x0b\xae\x22\xd8\xee\x12\x5f\x1f\xc0\xef\xc8\x84\xe6\x34\x6b\xf8\x42\x07\x53\xe6\x54\x5a\x2e\x46\xce\x77\x74\x54\xcc\xfc\xb0\xa0\x85\x7b\x5b\x7a\x8c\x6b\x80\x69\xfe\x1b\xe9\xf3\x66\x8e\x44\xad\x3b\x83\x8e\xd0\x10\x1d\xe6\x61\x53\x34\x6f\x38\x9b\x2a\x83\xab\x59\x06\x3c\x2c\xd8\x74\xa1\x4e\x93\xa0\x45\x17\x0a\x46\xa7\x9b\xd1\xd6\xa2\x29\xb9\xd1\xe8\xfb\xab\xc2\xe3\x12\x6b\x56\x1e\xed\xcb\xe3\x0e\x11\x1d\xf6\xad\xeb\xa3\xa5\xd4\x1e\x52\x23\xb3\x4e\x45\x71\x4e\xa7\x94\xad\x50\x48\x51\xbd\xc4\x72\xd6\x5a\x77\x0a\xb7\x94\x3a\x30\x1e\x14\xf5\xc2\x9a\xa4\x06\xe1\xeb\x47\x44\x14\x79\x33\xa3\x92\xb0\x5c\xa0\xc5\x6c\x0f\x16\x02\xb1\x66\x2f\xc9\x99\x5c\xa7\x43\xc2\xa4\xb5\xf6\x78\xf9\x23\x28\xfa\x7f\x12\xe7\x7f\xa3\xc4\x69\x0d\x1b\xc1\x49\x02\xe8\xf8\xa0\xc5\xb1\xee\xe8\x37\xaf\x6f\xae\x70\x9d\x94\x9f\xec\x8f\xa2\x69\xe7\x0d\xc7\x10\xae\x68\x0c\x04\xb7\x53\x40\x56\x84\xe5\x64\x92\x53\xed\x4a\xcc\x5f\xdf\x5c\x41\x8f\x83\x60\x0e\x56\x1b\xb2\xf3\x1a\x45\x23\x25\x46\x50\x2a\x7b\x42\xe0\xc9\x68\xc5\x67\x14\xa3\x53\xae\xcd\x8d\xa4\x6f\x22\xdc\x2e\xe1\x75\x14\xc8\x1d\x6f\xdf\xf5\x43\x42\x3e\xee\x7a\xfb\x94\xce\x4a\x4e\x63\xc4\xf6\x85\x89\x33\xdd\x95\xc6\x22\x4d\x46\xb8\x6b\x3b\xf3\x5c\xa2\x31\x45\x8b\x2c\x6e\x35\xbb\xf5\xa4\x69\x9a\xa8\xe0\xc7\x66\x03\x77\xe5\x77\xe5\x03\xe5\x0d\x23\x22\xa9\x70\x73\xad\xb9\xf8\x39\x62\x84\x2f\x29\xdf\xa0\xeb\x74\x90\x7b\x37\x1b\x0b\xd3\xb1\x9c\xf1\xd6\x2f\xa0\xbd\x3a\x17\xbd\x89\x91\xaf\xdd\x0e\x74\x31\x2b\x5a\x29\xc1\x33\x15\x44\x47\x32\x78\x3d\x8c\xe1\xac\x3a\x5c\x17\x9d\x1d\x8c\x1b\x84\x3d\x5a\x04\x49\xd3\x14\x87\x21\x09\x77\xce\x00\x4a\xe3\x66\xdd\xbb\x5e\xb5\xb3\xdb\xbb\xb7\xdd\xf9\x00\x5a\xed\x79\x70\xfe\x04\x9e\x6c\x1f\xad\x01\x76\x88\x6d\xda\x3d\x93\xdf\x38\x62\x26\x94\x81\x22\xd8\x43\x55\x96\xcd\xaa\x8f\x5f\xf0\x41\x8c\xd5\xd1\x8b\x05\x9c\x35\x53\x25\x0d\xf8\x03\x1e\x32\x3a\x50\x3f\xad\x8b\xfc\x1e\xbd\xa8\xaa\xe5\x64\xf5\x11\x54\x2d\x46\xf1\x96\xef\x7d\x9d\xe8\x32\x57\x1f\xe9\x2d\x1b\x42\xeb\x03\x70\x98\xca\xe3\x31\x0c\x9d\x15\x60\x28\x23\x1d\x6b\xa8\x60\x72\xaa\x07\x98\x1e\x5f\xe3\x36\xa9\x80\x12\x26\x7f\x28\x97\x42\xc7\x9b\x8c\x5c\xdd\xa3\x91\x73\x8b\x31\xea\x83\x41\x2d\x7e\x9e\x95\x4b\xc2\x8a\xa1\xce\x29\xdc\x70\xb6\x24\x9c\xe5\x6b\x1b\x07\xf3\x83\x66\x5a\x4c\x0f\xad\x23\x7e\xbf\xcf\x23\xb8\x96\xd7\xf4\x43\xc3\x93\xca\x3f\xf7\x9e\xda\x11\x12\xe5\x91\x9b\x31\xc7\x78\xe4\x6e\x27\x3f\x0c\x6c\xd3\x75\x71\xf4\x36\x0d\x4a\xac\xce\x7d\xd2\x23\x6c\x97\xbe\x8d\x3a\xbc\x05\x66\x0a\xb5\x61\x03\xdb\x5a\xe5\xeb\xa3\xf6\x69\x70\x21\x5d\x1b\xd5\x15\x32\x19\xda\x29\x51\xe1\x56\xd9\x51\x47\x9c\x23\x6f\xb3\x44\xd5\xb5\x5b\xdf\xd2\x1c\xe3\xef\xa1\x66\xb4\x4e\xed\xda\x2d\x87\x96\x19\xd8\x7c\x4f\xfa\xe2\x59\xb2\xdb\x01\xf1\x45\x69\x7a\x3f\x82\x55\x63\x10\x2e\x9d\x25\xbb\x6a\xc5\x6a\x54\xda\x9a\xc2\x3d\x5d\xab\xed\xce\xd0\xe4\x9d\x94\x72\x81\x34\xb6\xb3\x98\x84\x2f\xc4\xf7\x89\xf1\x4e\xb0\x6b\x9e\x43\x8e\xfb\x65\xa0\x10\xe3\x93\xa9\xb8\xec\x15\x29\xca\x82\x4d\x49\xfe\x2d\x25\x19\xe5\xbf\xa0\x6b\xeb\xba\xe0\x44\xa2\x34\xd1\x62\x69\x3c\x41\x0b\x62\x3a\xa5\x36\x48\x42\x99\x5c\x50\x6e\x66\xc6\xf7\x48\x8a\x4b\xb7\xd6\xef\x99\x5c\xa8\x84\x05\x92\x68\xa4\xd6\xfa\xf6\xcb\x77\xc9\xc1\x8e\x3d\xd8\xc5\xf7\x49\x03\xc1\x38\x05\x66\xfb\xa6\xf2\x51\x69\x64\x6b\x18\x0e\xff\x51\xfb\xa8\x43\xd2\x27\x1b\x9b\x2f\xe9\x83\x37\x5a\x4f\xaf\xd2\x13\x26\xc6\x04\x13\x32\xbd\xc7\xed\x59\xdb\x33\xa3\x63\xf9\xb8\xd6\x82\xaa\xd4\x48\x0a\xcf\x25\xee\xa3\xc9\x0a\x18\x76\x65\x13\x86\x2e\x9d\xdd\x02\x13\xf4\x96\x25\x64\x8c\xe4\x3a\x32\x9e\x13\x49\x39\x4c\x31\x6d\x85\x3e\x3a\xf5\x61\x6a\x06\x6d\x61\x17\xe3\x6b\xad\x45\x53\x8d\xef\x55\x59\x14\x03\x16\xab\xee\x64\x2d\xd6\xb8\xc7\x64\xf5\x8f\x1c\x1a\x0a\xbb\x41\xd9\x60\xdf\x83\xf1\x03\xac\x8d\x68\x0b\x56\x84\x77\x49\x14\x6b\xcf\xed\x3b\xa2\x61\xb0\xe9\x36\x1e\xdd\x90\xcb\x7d\xf3\xd1\x10\x43\x71\x1d\xae\xdf\xfa\x9b\x1e\x4e\x5f\xd7\x79\x6e\x1d\xa1\xc6\x1d\xbd\x79\xea\xb7\x5d\x17\x07\x0c\xcb\x67\xf4\x90\x61\x79\x40\x1a\xe9\x38\x5b\xd0\x18\xe0\xf8\x98\xb8\xc5\xc7\xca\x8d\x54\xd4\x35\x56\xa8\x13\x54\x56\x8a\xd9\xae\xe2\xa0\x15\x0e\xe7\xc6\x0e\x77\x98\xda\xb1\x17\x98\xe6\x18\x20\xf1\xa8\x99\x37\xd8\x5a\x91\x89\xa2\x12\x57\x0e\xe6\x5c\xfc\x78\x23\x64\x40\xbb\x3d\xa3\xc7\x68\xb7\x61\x7d\x75\xac\x11\x62\x34\x49\x8f\x76\xd3\x47\xdb\x9c\xbd\x67\xf4\x44\xed\x86\x8b\x79\xad\x90\x39\x52\xbd\x61\x57\x67\x8a\xa0\xd2\x3d\x49\xc1\x55\xf9\xba\x4b\xc3\xf9\xdb\xf6\xe3\x8d\x92\x7e\xdb\xf1\xba\x38\xc2\x76\x3c\xbc\x21\x9e\x09\x39\xb0\xc3\x83\xb6\x63\x6b\xd7\x86\xd6\xd1\x6d\x92\x98\x25\x1e\xb7\x65\xa7\x66\x73\x86\x6d\x47\x83\x85\xd2\xa9\xe2\xae\xf4\xcd\x11\x7d\x52\xba\xe4\xb9\x99\x07\xcf\x89\x66\xd4\x01\x28\xf1\x3d\x5d\x0b\x78\xfb\xce\xc6\xf8\x0e\xc0\x3b\x2a\x1b\xb6\xcc\xe0\xec\x90\x29\xa4\x54\x41\x45\x18\x6f\x26\x0f\x03\x1b\xf1\xbb\x6f\x0c\x24\x85\xde\xc6\x84\xbf\x56\x36\xda\x37\x95\x8f\xa9\xa2\x49\x7c\x9f\xa4\x26\xb2\x99\x7c\x05\x36\xea\x17\x68\xc0\x2e\xe0\xa1\x1e\xb5\x39\xe2\xe2\x5b\x28\x44\x11\xa6\x7a\xd7\xb2\xbd\xce\x96\x19\xc6\xcd\xec\x02\x7e\x5e\xb2\x22\x3e\x5b\x66\xa3\xa6\xe9\x06\xc7\xc4\x6a\x24\x46\x4d\x12\x0b\xce\x50\x06\x6d\x13\x13\x34\xd3\x3b\x79\x6c\x48\xec\xdb\xbb\xbb\x1b\xe3\x2d\xd8\xb6\xc3\x7f\xc6\x61\xa8\x72\xf4\x9a\xca\x85\x62\x2f\xb8\x84\x88\x54\x55\xce\xa6\xaa\x2a\x45\x15\xfa\x7d\x05\xd3\x05\xe1\x82\xca\xcb\x5a\xce\xce\x7f\x16\xb9\x48\x1a\xce\x6a\xdc\x59\x93\x8a\x47\xc6\x5a\x98\x16\x75\x66\x0f\x47\xd8\x10\x58\x59\x40\xc5\x69\x46\x67\xac\xa0\x99\x2a\xa8\x10\xe6\xcc\xed\x4c\x73\x30\xae\xd6\xae\xe7\x69\xc7\xd5\xfc\x4a\x0f\x6b\x91\xb0\x19\xa4\x0a\xbe\x32\xde\x3d\xb9\xb5\x13\xdb\x41\xde\x79\xfb\xae\x1f\xba\xda\xff\xae\xd7\x26\xd8\xa6\xe7\x40\xeb\x54\xb4\x62\x6d\xdd\x83\xae\x51\x92\x6b\x71\xc3\x63\xea\x3d\xf4\x0f\x79\x32\x93\x94\xc7\xbb\x6f\xe4\x55\xb3\xb5\xb1\xb7\xcd\x89\x02\xb4\xbf\xca\xa3\x22\x7d\x26\xe4\xa3\xa2\x7a\x4b\x24\xcc\xb2\x7e\x44\xeb\xe9\x75\x59\x23\x0e\x49\xe8\x59\x14\x26\x65\x71\x71\xd9\x4b\x66\xd7\x75\x82\x65\x22\xc5\x1c\x01\x9a\x61\xe9\x53\xdd\x64\xc2\xd8\x4b\x3b\x2e\x46\xa3\xcb\x74\xc7\x82\xde\x09\xfc\x35\xdc\x95\x6f\xb0\x60\x71\xbb\x8d\x92\xf4\x86\xc8\x45\xab\x0f\x36\xdc\xd1\x65\x85\x56\xb1\xea\x61\xd9\xa9\xa7\xfc\x4b\x05\x10\xdb\x11\x44\x83\xd1\x9e\x81\xe3\xac\x39\x5c\x9e\x37\xa5\x4a\xa9\x38\xf5\xa0\x3b\xea\x1d\xc5\x8e\xdf\xe8\xcc\x98\x55\xc3\xfa\x75\x57\x30\x31\x50\xc9\x82\x26\xc8\xe6\xff\x34\x42\x63\x69\x8c\x2a\x9f\x69\x74\x0a\x4e\xf9\x0d\xda\x2c\xb0\xc9\x34\x3b\xe3\xf7\xf8\x9e\x8f\xd0\xf7\xc8\xe8\x8c\xd4\xb9\x44\x6d\xa7\x19\x04\x4f\xa4\x0a\x35\x96\x33\xd8\x95\x05\x23\x20\x30\x29\x33\xe5\xfe\xa1\x6c\xd0\xa9\x2f\x74\x02\x23\x35\x4f\xe4\xfc\xc6\x15\x4a\x59\x04\xa5\xda\x53\x85\x5d\x9c\x68\xef\x84\x80\x50\xa9\x6e\x40\x7a\x20\xa8\x3f\xff\xf2\xcb\x14\x9e\x9b\x64\x18\xf6\xf4\x63\xa4\xfa\xdc\x50\xae\x2a\xa9\xb1\x47\xc5\xcb\x15\x43\xc7\x76\xa1\xde\x60\x95\x40\x9e\x63\xee\x5d\x61\xab\x73\x90\xd8\xaf\xb1\xc9\x7c\xd0\x08\xc5\x83\x8e\xab\x48\x5f\x10\x2e\x16\x44\x55\x80\x59\xfc\x97\xba\x09\xd3\xf7\xa2\x9e\x4e\x29\xcd\x84\xf6\xa4\x7e\x7e\xfb\xea\xa5\x29\xc8\xce\x6c\xf5\xb4\x75\xc5\xd4\x5a\x1d\x3a\x98\x0f\xed\x5f\x96\xce\xf6\x63\x3d\x3c\x1f\x59\x07\xcf\xad\xac\x79\xd9\x82\x06\xac\x10\x92\x92\xcc\xd2\x4c\x0b\x49\x5f\x42\x74\x19\x22\xae\x70\x64\x04\x0f\xba\xde\xad\xcd\x06\xca\x66\xc4\x5d\x1d\xc1\x7b\x3c\x7e\x3e\x49\xb4\xf8\xc1\x94\x63\x45\xf9\x46\xed\xe2\x05\xae\xc5\x6e\x28\x5a\x22\x6c\x66\xa9\x85\x04\xd4\x8a\x16\xbb\xc4\x6d\xda\x36\x7a\x96\xcd\x00\x5f\x3d\x55\x53\x9a\xa1\xd7\x3a\x66\xea\x00\xd9\x71\x48\xee\x38\xf9\xca\xce\x80\xdd\x2e\x3d\x9d\x8b\x68\xc3\xa5\x03\x67\xdd\xfd\xe0\x21\xd5\x6c\x13\x27\xe9\x2d\x95\x71\x64\x04\xe1\xf9\xdd\xba\xa2\xd1\xc8\x57\x79\x7a\x01\x0b\xcb\x64\x3e\xfe\x6d\xf1\x60\xf9\xb0\x59\x87\xe5\xbf\x8b\x4b\x37\xde\xf4\x12\xe8\x82\x29\xab\xc4\x33\x49\x6c\x77\x1c\xea\x23\xf8\x8c\xe6\xf1\xbd\x4d\x0a\xda\x50\x0f\x1e\x1f\xd1\x33\xd6\x58\x3b\x5e\x38\xc8\x74\x57\x90\x7d\xd0\x4f\xb2\x2c\xde\xb1\x5e\xf0\x7f\xea\xdc\x21\xd6\xc8\x0c\x9a\xd7\x9e\xa3\x5d\x5a\x90\xdc\xd3\x40\x8a\x30\x62\x3a\x40\x12\x8f\x87\x1b\xaa\x28\xe0\x97\x20\xa6\x06\x32\xbe\x36\x1e\xe9\x43\xaa\x38\xce\xa0\x87\x1d\x13\xd7\x18\xe3\x56\x26\x28\xcc\x1a\xa6\xd6\x8e\x12\x8f\x27\xf5\x0c\xde\xbe\xc3\x8a\xde\xc4\x1c\xa4\x4d\xa8\x0c\xc1\x07\xf0\xf9\xd3\x05\xd0\x2d\x13\xbf\x29\x0c\xdb\x20\x84\x11\x7c\xfe\x90\x7c\xb5\x1b\x60\xd7\x26\x90\x60\xbf\xa5\x70\x09\x3f\xfb\xff\x7f\xf9\x17\x9a\x3f\x73\x5a\xe0\x98\x04\xfe\x4a\xbf\xc3\xae\x01\xa2\x71\x09\x93\x7a\xf6\xf6\x02\x1b\xdf\x99\x2d\x33\x82\x18\xcb\x53\x14\xdd\x66\x71\x64\x45\x0f\xe0\xa2\x54\x9e\xf8\x02\x63\x63\x98\x26\xae\xd0\x96\x82\xa2\x2c\xce\x91\x69\x9d\x97\x80\x1d\xa3\x11\x02\x37\x39\x60\x03\xd5\x54\x18\xbf\xa4\x0f\xf1\x83\x3e\x74\x8a\x46\x4a\x40\xfb\x6b\xb7\x55\x09\x9b\x30\x50\xbd\xf0\x19\x85\xd7\xaf\x71\x96\x0b\x23\x9d\x7f\x6d\x74\x05\x32\xb6\xe9\x45\x24\x13\x33\x86\x17\x51\x16\xd4\x89\x5a\x25\xa5\xbd\xcd\x6d\x7c\x18\x01\x4c\xdd\x19\xb1\x17\x67\x8e\x29\x0c\x4f\x75\xe6\xca\x9b\xd4\xa1\xaa\xd0\xc2\xcb\x0e\x76\x2a\x9c\x29\x74\x07\x0b\xc0\x2f\x16\x70\xf6\xbe\xe5\x91\x78\xd1\x00\x4d\x3c\x81\x1a\x27\xd0\x2e\xc0\x5b\xa4\xcd\x0c\x3d\xa3\xdd\xb9\x35\x76\xa2\x7a\x6c\x81\x30\x48\x85\xad\xe0\xfc\x6e\xf8\xe2\xa0\xc1\xe3\x05\xbc\x0e\x58\x3c\x2e\xe2\x31\x68\x5a\xec\x7a\xd0\x0a\xfb\xee\xec\x8b\x4a\xd2\xea\xab\x43\x38\x06\x25\xeb\xb9\x51\x64\xbe\x73\x6c\xe7\xb9\x21\x9c\x16\xd2\x38\x9c\x8e\x4f\x55\x59\x1b\xea\x3a\xc4\xca\xb6\x2a\xc8\xc8\xc1\x87\x82\xfb\x81\x17\xff\x18\x5c\x56\xa7\x43\x0d\x67\x46\x7b\xa9\x2e\xfd\xce\x74\x90\xd1\x19\xe5\xc0\x53\x54\x09\xe9\x15\x46\x41\x51\x00\x29\x89\x81\x8e\x76\xe3\x5b\xef\xac\xd5\x40\x46\xb5\x80\x16\x16\x1e\x78\x97\xcd\x33\xb7\x01\x5e\x53\x92\x3d\xc9\xf3\x58\x03\x3f\xae\x62\xd2\x5e\x11\x98\xa1\x36\x1d\x41\x64\x24\x01\x47\x4d\x6e\xad\x29\x5c\x99\x25\x67\x64\x95\x41\x5b\x10\x7d\xa9\xd6\x16\xd4\x56\xa8\xa1\xdf\x75\x71\x09\xee\x4a\x4c\x23\xee\x8c\x11\xa9\xba\x07\x4f\xf2\xbc\x7c\xb8\x21\x5c\x32\x92\x63\xc8\x4e\xf2\xda\x58\x9c\xcf\x98\x98\x12\x9e\xbd\x29\xd4\xf5\xa5\x8b\xe6\x8d\x2d\x1b\xc1\xa5\x5f\x82\x3f\xe1\x9e\x48\xc5\xc4\xe5\x9e\x50\xed\x16\xab\xfd\x82\xb5\x53\xb4\x1a\x34\x5a\xc4\x74\x07\x76\xd3\x41\x56\x43\xbd\x8f\x92\xb9\x9a\x20\x81\xa7\x10\x9f\x92\xcc\xb0\x83\x79\x87\x08\x34\x68\xb9\x50\x00\xba\xab\x37\x84\x93\xa5\xb0\xbe\xd0\xaf\x08\x17\x31\x4f\x4c\xa5\x4e\xf3\x1e\x03\x07\x1f\x6a\xca\xd7\x4d\x77\x9e\xbe\x79\xfd\x5d\xfa\x4b\x6c\x8c\xed\x00\xaf\x4b\xe8\x3b\x48\xba\x4a\xf6\xe2\xb2\xe1\x5a\x75\x9b\xc3\x78\x47\xaa\xce\xa6\xb0\xdd\xd2\xef\x4a\x6d\xb5\x43\xa4\x16\xa9\xfb\x60\x10\x57\x41\x49\xbf\xa1\x85\x9a\xd4\xed\x26\xba\x4e\xad\x88\xb1\xfb\x35\x8c\xc2\xab\x82\x96\xb3\x3d\x3c\xe8\x87\x7d\x3c\xd4\xb2\x7e\x0c\x22\xee\x58\x7d\xce\xe9\x87\x26\x1b\x6e\x3c\x22\x15\xa6\xb6\x5d\x9b\xb0\x63\x87\xb7\xd5\x29\x31\xfb\xf2\xa0\x5a\x3e\x0a\xeb\x7a\x38\xbd\x4e\x84\x92\x9f\xbb\xae\x86\x76\xbc\xf8\x09\x39\xce\x0e\x04\xbb\x64\x5f\xa7\xe1\xde\x97\xf6\x74\x26\x52\x9f\xa0\x78\xb1\x27\x26\x76\x85\x84\x93\x05\x6f\x04\xbd\x41\x01\x83\xf2\x52\xf8\xe2\xe3\x8d\xa0\xd7\x45\xbd\x7c\x59\x2f\x27\x94\x8b\x8b\xe6\xc5\xf5\x92\xc9\x37\x45\x55\x56\x35\xfa\xdb\x99\x13\x2b\xdb\xb0\x25\x4f\x1b\xdc\x2c\x3a\xae\xee\x3d\x8d\x15\xaa\xe9\x0b\x2a\x04\x99\xd3\x64\xa8\x32\xc2\xb2\xc1\xfb\x91\x91\x56\xce\x9c\x54\x96\x94\xd7\xcb\x4f\xd3\xba\xe2\x48\x61\x8c\x81\xae\x00\x4d\x77\x90\x72\x4f\x0b\xf5\xe5\x6b\x1b\xeb\x9c\x7b\xe6\xc4\x60\x86\x16\x01\xef\x67\x67\x17\x44\xc0\x82\x64\xa1\x4a\xaa\xf6\xe5\x63\x55\x16\x30\xc3\x1a\x50\x86\x21\xe7\x86\xbf\xfd\x7b\xc4\x72\x41\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\x06\x46\x66\xc6\x50\xae\x8b\x59\x5a\x74\x8c\x87\x8b\x68\x8b\x52\x03\x69\x27\x7d\x07\xd3\xbd\x83\x49\xdc\xfb\x91\xa3\x50\xfa\x0d\x95\xf1\x3d\x6e\xf8\x70\xde\x77\x07\xff\xf8\x3e\xe9\x82\x81\xf2\x19\xc9\x5d\x17\xb4\xb9\xaf\x35\x5d\xa0\x2c\x4b\xd5\x1b\x92\x8b\x12\xb7\xc0\x9c\x61\x25\xed\xa1\xe6\x79\x38\x3c\x7b\x64\xba\x9e\xe3\xad\xe6\x91\x11\xe2\x37\x44\x2e\x92\x43\x03\xdd\xae\x60\x95\x3f\xf2\x1c\x0a\x91\x28\xf9\xe8\xf4\x34\x82\x30\x19\x19\xdb\x76\x42\x7a\xda\x1b\xdd\xc4\x6f\x3b\xb2\xd3\x05\x60\x4f\x23\xbd\x20\x67\x2b\xb4\x5a\x89\x34\x54\x5b\x96\x52\x05\x2f\x30\x36\x41\x0a\xbc\x14\xf6\x3d\x56\xf8\x57\xfa\xfa\x99\x6e\x43\x39\x39\x2d\x97\x54\xdf\x8a\x68\x26\xc9\x98\x98\xe2\xa5\xfe\x35\x88\xb5\x90\x74\x39\x02\xa1\x8a\xcd\x73\x76\x4f\xf3\xb5\x65\x3a\x64\x23\x88\x16\xa5\x90\x17\xc8\xd1\x91\x11\xa0\xad\x15\xc4\x6e\x2a\x5b\xaf\xdc\x1b\x16\x3e\x3d\x79\xcd\x66\xf0\x89\x65\xb9\x6f\x89\xb8\xe1\x74\xc6\x1e\xdd\x8c\x23\x88\xf0\x54\x46\x2a\x8e\x12\x38\x3c\x2e\x75\xf3\xc5\x78\x1c\xc1\xff\x73\x94\x40\xae\x0c\x6a\x27\x05\x6b\x9e\xa7\x37\x68\x9d\x38\x68\x47\x97\x81\xa1\x71\x51\x87\xe6\x5a\x30\x7a\x96\x1d\x1e\x87\x49\xde\xea\xfb\x13\xd1\xcb\x52\x6f\xa4\x17\x3b\xd7\xf5\xfb\x8a\x20\x3a\xd2\x84\x80\x1e\x4a\x7e\x3f\x02\x1d\x8f\x07\xa3\xe9\xd1\xf1\xc3\x0b\x7e\x5c\xdb\x9b\xfa\x2d\x43\x12\x46\x4d\x4c\x58\x99\x0b\xc7\xfb\x42\xc1\x66\x83\xd7\x85\x77\x9d\x1f\x83\x34\xbe\x55\xe1\x45\x6b\x6c\xa0\x40\x65\x45\x46\x1f\xf7\x47\x7c\x69\xc7\x98\x4a\x81\x5d\xaf\x62\xa8\x50\x00\x8d\x0d\xf5\x77\x30\x30\xae\xe3\xaa\xb0\x57\x2d\x60\x0a\x01\x7a\x63\xd2\xc6\x82\x0c\xa6\x65\xb5\x7e\xf3\xfa\xbb\xb8\x1e\x81\xdf\xff\x29\x11\x14\xc5\x07\xc6\xa6\x6d\xd7\xc6\x3a\xd8\xc7\xaa\x6d\x97\xb6\x03\xd0\x86\x32\x1d\x35\x05\x7b\x05\x03\xc1\x6e\xcd\x80\xb5\x6d\x9b\xdd\x6c\xfd\x6e\x7e\x3a\x71\xd5\x59\x46\x30\xb8\xef\x70\xfe\xa7\xda\xf9\xbe\x28\xbd\x29\x53\xd8\x25\xa2\x7d\x6d\xea\x2d\x06\xd7\xeb\x95\x2f\x28\xc9\x63\xf7\x71\x42\x04\x85\x33\x3c\xc3\x6f\x5e\x7f\x37\x52\x99\x2b\xa3\x9a\x12\xd7\x8c\xe7\xb7\x40\xbb\xe0\xe2\x12\xce\x70\x80\x7e\x54\x59\x0a\xe3\x1e\x38\x72\x7e\x8e\x6f\x4c\x80\xe1\x4a\x3e\xda\xbc\xeb\x2d\xda\xb7\x53\x55\x3f\x5f\x73\x13\xaa\x41\x76\xb4\x07\x57\x96\x50\xd5\x79\xae\xda\x8d\x9e\xa3\x19\xd6\x80\x09\x28\x6b\x54\xdd\xd6\x7c\x35\x6a\x49\x85\x77\x8c\xda\x5b\x5a\x13\xd6\x77\x40\xd1\x56\x30\xe1\x8e\x14\xe0\x65\x29\xcd\x7d\x60\x04\x89\xb0\x94\xa4\x58\x90\x15\x05\xfb\x9d\x8f\x61\x93\x44\xcd\x33\x51\xa9\x30\x73\x25\x4e\xdd\xf9\x41\xc9\x6f\x51\xc3\xdb\xd5\x26\x79\x40\x6c\xcd\x93\xb2\x3d\x70\x55\x6b\x17\x05\x77\x79\x43\xff\xc2\x1e\xe5\x4e\xe1\x9a\xbc\x75\x9b\x76\x3a\x57\xed\x5d\x48\xe9\xd7\x07\x7e\xc4\xa7\xa3\x93\x49\xe7\x0d\x5c\xe8\x3c\xc2\x3a\xfc\xc9\xb2\xd5\xce\xe2\xc1\x10\xf7\x6e\x98\xd7\x2e\x43\x27\x95\x13\xe4\x2a\xa4\x35\x4a\x94\xbe\xda\x9b\x83\x02\x7b\x37\x24\xd5\x29\x6c\x06\x23\x52\xbb\xfe\x95\x09\x47\x69\x6b\x6c\x37\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x1a\xdf\x67\x37\x24\x65\x9a\xd1\xf1\xd5\x66\x9e\x49\xc1\xb8\x37\x68\x50\x13\x15\x0e\xf8\xb3\x2f\xbf\xf4\x73\x51\x23\x78\x30\x09\x17\x15\xf0\xac\x38\x45\x23\x87\xa8\xf3\x40\x0a\x05\x4b\x19\x05\x8a\x51\x89\x94\xf8\xc5\x06\x3c\x3f\x7a\x15\xfe\xf9\x33\x01\x6c\x58\x6a\x17\xa6\xc1\xd1\x22\x71\x30\x64\x66\x6b\x4f\x3a\x42\x66\x9d\x64\x1f\x8e\x98\xe9\x49\x4f\x0f\x99\x9d\x12\x01\xbb\xc4\x2e\xe9\xf5\xab\xaf\x7b\x83\x60\x18\xc5\x6e\x62\xe3\xc8\x18\x8a\x04\x80\x74\x5c\xfb\x51\xaf\x1d\xf3\xa7\x0b\x16\x06\xd4\x3a\xe2\x69\x0e\xa8\x01\xa7\xe1\x71\x2f\x17\x01\x9f\xb4\x12\x1f\xaf\x7e\x31\x38\xc5\x2c\xde\xcd\x44\x24\x23\x88\x3c\x9e\xb9\x80\x2f\x3e\xcb\xbe\x88\x46\xad\x39\xdc\xdc\x68\x8e\xe0\x82\x0f\x71\x73\x78\x72\x5c\xaf\x37\xac\xd7\x17\xd5\xdb\x86\xc7\xc7\xf4\x44\x95\x7c\x75\x78\x13\x7c\xa2\xd8\x05\x9b\x4e\x9f\x37\x65\xd2\x41\x3b\x2e\xe3\x0b\xa0\xeb\xe2\x44\x01\xe4\x7a\x7a\x86\xc1\x9e\x49\x70\x6e\x44\xd5\x11\x26\xd4\x60\x2c\xc8\x45\xcf\x43\xe7\xed\x9a\x70\x10\x90\xe3\x03\xe6\xea\xdb\x15\x78\xf2\x57\x84\xb3\xb2\x16\x80\xea\x04\xad\x30\xd4\xcb\xc1\x78\xbc\xaf\x7c\x63\xb4\x23\x46\xa0\x02\x66\x3a\x61\x8e\x87\x24\xb1\xa2\xe0\x88\x65\x0d\xcb\x02\xd5\xa5\xa7\x3e\xcd\x85\x8e\xf0\x03\x54\x2b\x92\xe3\x5e\x44\x91\x89\x4c\xea\xa6\xe1\x6f\x0f\xec\x10\xc3\xcc\xa6\x99\xdc\x46\x38\x39\xfd\x10\x86\x3b\xea\xab\xd7\x35\xde\xed\xd7\xef\x7b\xeb\xa8\xc4\xad\x92\xd9\x78\x41\x5f\x2e\x30\xf0\x4b\x96\x54\x62\xda\x06\x6f\x91\xcb\x05\xa2\x6d\x3d\x39\x55\xa0\x65\x93\x4a\x3b\x37\x50\x05\x55\xe1\xa1\x56\xac\x13\x67\xb9\xd5\xed\x2e\xd8\x69\x3b\x6e\x77\xef\xa1\xa2\xc9\x18\x8d\x15\xfe\x5d\xde\x1e\xe2\x32\x9c\x3c\xd8\x95\x41\x28\xe7\xca\x3a\xcf\x8a\x2f\x64\x73\x7a\xf5\x2a\x3f\xfb\x10\x69\xe3\xd3\x4a\x50\x4d\x95\xd7\xe4\xc1\x18\x99\xb5\xfd\xed\xde\xb9\x17\xf8\x63\x87\x72\x8a\xf1\xda\xa4\xf3\xd2\xd1\x3b\x11\x6b\x14\x70\x72\x59\x99\xf4\xac\xd9\x60\xb9\xac\xda\xe4\xec\x8b\x5d\x83\xa5\xe3\x39\x1c\x17\x36\x66\x33\x75\x20\x4c\xb7\xd7\xb4\xa2\x18\x63\xb4\xc3\x9e\x8b\xa7\xc4\x93\xa8\x0d\xe4\xf8\xca\x7e\xc1\xcf\xf4\xfc\xa6\xc4\x5e\x10\xd9\xed\x8f\x12\x3b\x42\x2f\xf5\x6d\xe4\x42\xd4\xbf\x74\xf1\x78\x53\xe4\xfd\x4e\xb3\x70\xea\x7a\x5c\x91\x25\x35\x55\xe1\xcd\xac\x34\x17\xee\x79\x3f\x61\xdf\x37\xde\xe6\x43\x0c\x1a\x2a\x81\x3f\x80\xca\xc8\xfb\xec\x55\xbc\xc2\x98\x57\x93\x37\x69\x71\x23\xe2\x84\x18\x21\x31\x4a\x0e\x31\xea\xcb\x3d\xa2\x25\xbb\x74\xb5\xf8\x2b\xba\x9b\x77\xb7\x92\xf0\xeb\xc7\x8a\x6f\xb7\x6c\xd6\xbf\x0c\xcb\xd0\xd0\x78\x56\x41\x10\xc8\xa5\xb9\x1d\xb7\x53\x64\xd2\x07\xc6\xac\xa7\xe3\x90\x74\x9e\x13\x73\x4c\x66\x84\xe5\xba\x0a\xc8\x9e\x92\x3e\xf8\x51\x9b\x60\x46\xe4\x59\x09\x11\xcb\x65\x95\x84\x27\xed\x86\x86\x90\x0c\x51\x0d\xb6\x2d\x9a\xe8\x6d\xb1\x04\xda\x6c\xc6\x67\x7f\xf8\xd7\xbf\xf9\xe1\xf7\xff\xfc\xc3\x3f\xfd\xdb\x0f\x7f\xff\xbb\x3f\xfe\xe3\xdf\xfe\xe7\xbf\xff\xc7\x1f\x7e\xff\x77\x3f\xfc\xcb\xef\xfe\xf8\xbb\x7f\x38\x1b\xc3\xf9\xf0\x9e\x38\x82\xf5\x2d\x19\x3e\xb9\xf4\x89\xf8\x11\x6c\x76\xd6\x07\x7a\x8f\xfd\xfc\x95\x7d\xc4\x44\x87\xe6\x69\x93\xb1\x29\x4a\xdc\x79\x32\x0f\xdb\x6d\x5b\x24\x95\x98\xb9\xea\xcb\x65\xed\xcb\x25\xd5\xbd\x5f\x2e\x35\x60\x2b\xa7\x37\xf4\x10\x63\xb3\x41\x6b\xdf\xdc\x11\x2c\xd5\xdb\xf6\x19\x34\x6d\xbb\x87\x10\xed\xd8\x15\x5e\xf0\xd1\xe5\x38\x86\x3a\xa6\xb3\x47\x1e\x55\x3c\x6e\x81\xa8\xfc\x9c\xd1\xbe\x9e\xe7\x38\x70\x16\x57\x24\x4f\x1b\x75\x6e\xc0\x18\xc2\xdb\xb1\xdd\x07\xf2\x63\x8e\x64\x0b\xbe\x3d\x8e\x8e\x85\x86\x8e\xe4\x1e\x4b\x19\x50\x87\x4e\x65\x37\x7b\xfe\xc4\xc4\x3d\x1a\x35\x8f\xdd\x87\x08\xbf\x87\xbb\xcf\xed\x3b\x8f\xad\x27\xf3\xa0\x02\xb3\x8d\x59\xa0\x10\x81\x4b\x53\x65\x66\x0c\xde\x58\x59\x50\x86\xe5\x0b\xcf\x94\x53\xe1\xcc\x68\x4e\xa5\xfe\x6e\xa3\x6f\x2a\xa0\x61\xda\xb6\x14\x64\xf9\x9a\xca\x8f\x35\x0e\x8f\xb1\x18\xce\x0f\xe4\x99\xdb\xf9\xee\xf1\x19\xbc\x2a\xf2\xb5\xfa\x06\x14\x22\xac\x7a\x0b\x93\xef\x12\x0b\x34\xa8\x60\xe2\x82\x49\x38\x16\x53\x10\x78\x1b\x52\x51\xb6\x94\x0b\xbf\xc0\xb4\x5c\x32\x89\xe6\x46\x56\xab\xcf\xd3\xa0\xdb\xca\x0a\x2a\x04\x9c\x8d\xcd\x8c\x6a\xf9\x9d\x52\xeb\x80\xd1\xd0\x08\xb3\xd6\xfe\x99\xe3\xb2\xeb\x11\xbe\x38\xec\x0f\x36\x0e\x61\x6f\x0a\xb7\x3f\x87\xdb\x9b\xc4\x55\xa7\x07\xef\x67\x38\x9b\xd6\x61\xe8\x24\xc8\xc1\x2f\x89\x0d\x99\xb6\xda\xc3\x52\x1e\x3c\x46\x5d\x50\x34\xc1\x67\xab\x68\x04\x8a\xb2\x8d\x81\xfb\x14\x3b\xb8\x98\x84\xfb\x46\x67\x8c\x45\x82\x02\xcb\xd1\x9f\xd6\xb3\x19\xe5\x31\xe2\xea\x17\x51\x83\x5f\x49\x60\xdc\xd3\x60\xff\xc3\x65\x07\x3f\x5b\xe2\xbe\x63\x7a\x6c\xaa\xee\xe5\x93\xbb\xdb\x8f\xb9\xa3\x61\x6b\xcd\x70\x3c\xe8\xf0\xa6\x7b\x36\xf7\x36\x11\x17\x44\xb4\x18\x81\xe0\x2b\xfd\xec\xbe\x4b\x67\x1c\xba\xfd\x4f\xe2\x1d\x7b\xf7\xb2\xeb\x16\xe5\x6d\x3d\x71\x0c\x80\x38\xa0\x26\xaf\xe9\x6d\x3d\x11\x53\xce\x26\x34\xde\xb9\x35\x69\x64\xa7\x77\x6f\x0a\x9d\xbc\xae\x3e\x28\xad\xf9\xca\xff\x66\x87\x02\x42\x5f\x88\xb9\x5a\x6c\x72\x90\xb3\x0c\x87\xa0\x9f\xd9\x8d\xb8\x77\x2b\xd1\x63\x83\xcd\xa6\xf5\x19\x0b\x72\x4f\xbd\x0d\x3b\xf6\x43\x31\x38\xe4\x88\x0f\xc5\x34\x90\x0f\x5e\x68\x69\x7d\x24\x37\x75\x04\x36\xd7\x04\x12\x7f\xaf\x7b\x3e\x10\x33\x0c\xc1\x54\x24\xfc\xcf\xfb\x4e\x4c\xb3\xae\x83\x37\x54\x0d\x93\xba\x3d\xbe\x80\xf6\x9a\xf1\x5e\x87\x5b\xf6\x49\x1f\x87\xc1\x8d\xf2\x7a\x18\x7d\x35\x32\xf7\xdb\xaf\x8b\xce\x3e\x5e\xca\xad\xe9\xb1\x53\xe2\x73\xea\xd7\x63\xbc\x5d\xf6\xae\x10\x9c\xfe\xf5\x18\x0f\x8e\xab\x17\x3e\x4c\x5c\x6f\x79\x00\x70\xd6\xa6\x6e\x43\xda\xbd\x8f\xc1\x98\x99\x76\xd3\x0c\x7d\xf3\x78\x81\x6e\x24\xd9\x66\xd3\x26\x7b\x77\xc2\x65\x29\xe6\x46\x00\xbe\x10\xf3\xfe\xf8\xf6\x7e\xe9\x67\xd7\xb5\xca\x81\x02\xf2\xa5\x98\xa7\xcf\x94\xde\xeb\x2e\x79\xec\xca\xd0\x5b\x5e\xee\xb9\xa3\x69\xc8\x63\x82\xa0\x4d\xcd\x5a\x07\xbf\xec\xc6\x29\xd5\x82\x8f\xa8\x59\xc3\x18\x1a\x94\x93\xdf\x60\x2d\x86\x09\x43\x0a\xb7\x5f\xf6\x7b\x1c\x2f\x48\xb1\xd6\xa9\x17\x4c\xc8\xd9\xda\x0c\xfd\x59\xbf\x1a\x43\x06\x98\xff\x40\xf4\x50\x00\x16\x82\x61\xf6\xcd\xdc\x1a\x32\x42\xad\x17\xef\x9e\x24\x19\xce\x6b\x2c\xfa\x11\x14\xd3\x96\x06\x73\xe9\x81\xee\xb8\xa4\xa5\x73\x8b\x07\xf5\xfc\xb8\x04\x7f\x62\x33\x11\xce\xd0\x80\x4d\x4e\x29\xaf\xc1\x15\x99\x50\xb5\x6d\x3b\xa1\xbc\xc6\x1b\x7d\xe0\xeb\x0f\xb8\xfc\xff\xee\xaf\x3f\x34\xd8\xed\x5b\x11\xbd\x0a\xe8\xa6\x9e\xe4\x4c\x2c\x28\x3f\xa5\x7a\xa6\xfb\xd3\x0f\xc7\x5a\x1f\x1f\xf3\xed\x07\x5b\xd1\x31\x34\xec\x72\x87\x87\x5e\xd2\x07\xb7\x3a\xa5\x24\xbc\x8f\x40\x04\xc1\x11\x06\x4d\xe8\xd5\x6d\xb4\x8e\x82\x5f\xac\xf1\x8c\x1e\xd2\x19\xfb\x55\x1a\xbb\x45\x1a\xad\xa2\x58\x27\x50\xec\xc9\xe8\x2c\xc9\xe8\x14\xb9\xc6\x95\xf2\x10\xd9\x29\x99\x38\xfd\xcb\x0e\xb8\xb0\xbe\xec\x72\x9f\xd8\x77\x49\xe5\x1e\xaa\x74\xca\xbe\xe3\xbe\xec\x60\xf5\xc2\x9f\xec\x1b\x0e\x3d\x28\x1f\xa1\xaa\xa0\x5f\x57\x61\x2d\xdd\x11\x6a\x88\x72\x6e\xe7\xdb\x53\x47\xe3\x31\xec\x6b\xa4\xf1\x18\xb6\x1e\x74\x3b\x38\x55\x05\xf5\x76\xf0\xe7\x9f\xef\xbf\x4b\x31\xa5\xa9\xbe\x1f\xf9\x9e\x99\x6b\x62\xef\xa3\x9e\x69\x6c\x9a\x77\x1f\x88\xad\xe6\xb5\x88\x74\xa4\x46\x3b\xbf\x4c\x71\xac\x52\xee\xca\x59\x0e\x6b\xe5\xee\x0f\x39\xf9\x3c\x6c\x74\x73\xb7\x6a\x36\xe9\xb3\x01\xcd\xdc\xbe\x7f\xe3\xfe\xcb\x3b\xa6\x84\xc7\x44\x48\x94\xeb\xd0\xa3\xac\x71\xab\xad\xa4\x7f\x21\xe6\xbb\xba\xfa\x5c\xe1\xfa\xd3\x28\xec\x63\x6d\xac\x43\x89\x43\x4b\xf2\x5e\x05\xed\x26\x52\x27\xc2\x81\x4b\xbc\x6d\xf8\xaf\x01\x00\x2e\xef\x6a\x5e\x29\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27084, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xf3, 0x6c, 0xf5, 0x23, 0x98, 0x31, 0xdb, 0x31, 0x82, 0xae, 0x9c, 0xb5, 0x82, 0x4b, 0x61, 0x48, 0xe5, 0xe3, 0x1b, 0x3b, 0x85, 0x3e, 0xdb, 0xc0, 0xc4, 0xd, 0x55, 0x9f, 0xd1, 0x54, 0x33, 0x95}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27177, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x7f, 0xd5, 0xca, 0xf, 0x80, 0xfc, 0x9b, 0x88, 0xb5, 0xa8, 0x22, 0x2d, 0x6f, 0xa0, 0x69, 0xf, 0x40, 0xab, 0xbd, 0xdf, 0x41, 0xef, 0x77, 0x48, 0x54, 0x71, 0xb0, 0x25, 0xcd, 0xcc, 0xaa, 0x8}}
 	return a, nil
 }
 
-- 
2.43.0


From 3fbb7530a292a921988413973a851a6c795c61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 32/44] fix: a host whose name begins with http was taken for a
 URL by the HTTP client

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 2 +-
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 46cecfd..51b3e61 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -513,7 +513,7 @@ func HTTPHeadersToContext(ctx context.Context, r *http.Request) context.Context
 // instance. We expect instance to come from a service discovery system, so
 // likely of the form "host:port".
 func NewHTTPClient(instance string, options ...httptransport.ClientOption) ({{.Service.Name}}Server, error) {
-	if !strings.HasPrefix(instance, "http") {
+	if !strings.Contains(instance, "://") {
 		instance = "http://" + instance
 	}
 	u, err := url.Parse(instance)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 2fe237d..7817063 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.177kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.175kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.985kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xdb\x48\x76\xf8\x99\xfc\x14\x6f\x88\xf9\x43\xf6\x4f\x4d\xcd\x2f\x40\x82\x4d\x0f\x3a\x80\xdd\xee\x99\xf1\xee\xd8\xee\x75\xb7\x77\x0e\x86\xe1\x2d\x89\x25\xa9\xb6\x29\x92\xae\x2a\xaa\x5b\xab\xe8\x92\xcb\x06\x48\x80\x00\x39\xe5\x10\x2c\x72\xca\x35\xc8\x39\x9f\x67\x27\xd8\x6f\x11\xbc\xfa\xc7\xa2\x44\x52\x92\x67\x36\x08\x82\x18\xbb\xb6\x58\xac\x7a\xf5\xea\xd5\xab\xf7\xbf\x38\xe3\x31\x5c\x95\x19\x85\x39\x2d\x28\x27\x92\x66\x30\x59\xc3\x84\xf0\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x0e\xae\x9f\x3d\xbf\x4b\xc3\xf1\x18\x5e\x53\x5e\x17\x05\x2b\xe6\xba\x03\x3c\xb0\x3c\x87\x72\x45\xf9\x03\x67\x92\x82\x5c\x30\x01\x33\x96\x53\xd5\xf9\x57\x94\x0b\x56\x16\x17\xb0\xd9\xa4\xe6\xf7\x76\xeb\xbd\x80\x67\x44\x52\xff\x2d\x3e\x6f\xb7\x61\x58\x91\xe9\x3d\x99\x53\x7c\x73\xa3\x7f\xbe\x24\x4b\xf5\x66\x3c\x86\x3b\x3b\x07\x4c\xcb\x42\x12\x56\x08\x58\x52\xb9\x28\x33\x01\xb2\x84\x25\xb9\xa7\xc0\x8a\x8c\xad\x58\x56\x93\x1c\x68\x91\x55\x25\x2b\xa4\x80\x19\x2f\x97\x20\x28\x5f\xb1\x29\x15\x23\x44\x83\xd3\x0f\x35\x15\x12\x48\x91\x01\xa7\xa2\x2a\x0b\x41\x41\xae\x2b\xaa\x20\x61\x57\x5c\x51\x29\x68\x03\x65\x04\x44\xc0\x03\xcd\x73\xfc\x97\x16\xd3\x32\xa3\x5c\x20\x00\x84\x97\x51\xf3\x3c\x2b\xb9\x19\xa8\xa0\x8d\x54\x03\x41\x4a\xcd\xa0\xac\x39\x88\xba\xaa\x4a\x8e\x94\x96\x9c\x14\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xb2\x40\x68\xb3\x92\x2f\x89\x14\x69\x18\xb2\xa5\xea\x11\x87\x41\x34\x59\x4b\x2a\xa2\x30\x88\x70\xed\xf4\x51\xe2\x4f\x85\x06\x2b\xe6\xe3\xdf\x88\xb2\xc0\x86\xd9\x52\xb5\xb3\x52\xff\x3d\x66\x65\x2d\x59\x8e\x0f\x05\x95\xe3\x85\x94\x95\xfd\x5d\x73\xd5\x2c\x24\x9f\x96\xc5\xca\xfc\x64\xc5\x5c\x44\x61\x18\x44\x73\x26\x17\xf5\x24\x9d\x96\xcb\xf1\xbc\x3c\xbf\x67\x72\x8c\xff\xb7\xb4\x88\xc2\x80\x14\xeb\x6a\x02\xd1\xbc\x2c\xe7\x39\x4d\xe7\x65\x4e\x8a\x79\x5a\xf2\xf9\xb8\xe2\xa5\x2c\x27\xf5\x6c\xac\xd6\x3f\xbe\x2f\xca\x87\x62\xac\x7a\x47\x61\x90\xd5\x5c\x2d\xf2\x84\xa1\xcd\x90\x28\x0c\xe8\xb2\x92\xa7\xcc\x6b\xfa\x47\x61\x30\x63\x34\xcf\x96\x44\xdc\x9f\x30\xda\x1b\x13\x85\x81\x90\xbc\x9e\xca\x13\x86\xdb\x01\x51\x18\x48\xb6\xa4\x42\x92\x65\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x9c\x54\x15\xe5\xe2\x04\x00\xcd\x90\xfd\x2d\xe5\x2c\xcf\xc9\x78\x59\x3f\x46\xed\x37\xd5\xfd\x7c\x4c\x39\x2f\xb9\xe2\xb4\x81\x89\x1c\xe7\xa9\x16\xcb\x7e\x03\x03\xd4\x0f\x44\x64\xb3\x39\x07\x36\x03\xfa\x01\xd2\xab\xb2\x98\xb1\x79\x7a\xe7\x4e\x42\x44\xf2\x3c\x82\xa8\x20\x52\x44\xb0\xdd\xb6\x71\xc3\xd6\x73\x56\xaa\x7f\xd3\x39\x72\x38\x82\xa2\x45\xb6\xdd\x1e\x05\x75\xce\xab\xa9\x85\xba\x87\xa7\x7a\xd9\xfb\x66\xbc\xa4\x92\x64\x44\x92\xdd\x49\x8f\x9e\x12\xe1\x37\x27\xbe\xe7\x7c\xb9\x0e\x16\x1d\x6f\x2e\x3c\xbb\x27\x00\xc0\xee\xd1\x51\x64\x69\x88\x8d\xbf\x4e\x98\x02\xbb\xb7\x70\x4c\xc2\x30\x5c\x11\x0e\x71\x18\xbc\x87\x4b\x98\x2d\x65\x7a\x5b\x71\x56\x48\xfd\xac\x04\x58\x7a\x55\x2e\x2b\xc2\xa9\x6e\x32\xd2\x27\x7d\x22\x4b\xa6\x5b\x5a\xcb\x4c\x5f\xd2\x87\x5b\xca\x57\x94\xeb\x97\x5a\x9a\xa5\x2f\xcb\xea\x2a\x2f\x45\xd3\x9a\x5e\x95\xd5\x5a\x3f\x68\xe6\x4d\xbf\xe7\xa4\x0a\x83\xf1\x18\xcc\x7e\x5a\x36\xd4\x32\x1e\xbb\x2a\x91\x94\x3e\x29\xd4\xb8\x46\xc8\xa4\xcf\xcc\x4f\x6c\x36\xe2\x23\xbd\xc6\x7f\xb1\xc1\x1e\xe9\xf4\x56\xfd\xc0\x26\xef\x98\xa6\x77\xf6\x37\xbe\x68\x8e\x1f\xf6\x66\xc5\xfc\x57\x24\xaf\xd5\xba\x3d\xb9\x92\x7e\x8d\xbf\x5f\x10\x71\x1f\x26\x61\x38\x3e\x3b\xea\x0f\x5c\x5b\x9d\x04\xb6\xe9\xf0\x9f\xb1\xd2\xa0\xcf\x0b\x20\xa8\x6f\x56\x94\x8f\x80\xc9\x2f\x04\xd4\x82\xce\xea\x5c\xa9\xa9\x59\x5d\x4c\x91\x0a\x02\xe4\x82\x48\x28\x28\x6a\xa9\x12\xca\x4a\xd9\x06\x50\xe2\xd8\x8a\xf2\x73\xab\x06\x10\xe0\x84\x08\x26\x52\xf8\xba\xe4\x40\x1f\xc9\xb2\xca\xe9\x08\xd6\x65\x0d\x4b\x36\x5f\x48\xa8\x88\x40\x15\xe9\x21\x2c\x4b\x20\x6e\x22\x3d\x4f\xc5\xcb\xac\x9e\x52\x81\xe0\x48\xa1\x38\x20\xfd\x96\x14\x59\x8e\x38\x3e\x30\xb9\x00\x4a\xa6\x0b\xa3\xe9\x21\xb6\xb3\x27\xf0\xc0\x38\xcd\xa0\xae\x10\x49\x02\xa2\xa2\x53\x36\x63\x53\xa8\x88\x5c\xa4\x10\x3f\x97\x08\x90\x09\xa8\x78\x39\x21\x93\x7c\x0d\x04\x96\x4c\x48\x6d\x25\x40\x46\x05\x9b\x17\x38\x94\x15\xab\xf2\x1e\xd5\x3d\x05\x64\x36\x36\xa5\xce\xaa\x50\x28\x52\x84\xd3\xac\x40\xf3\x00\xb0\x86\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x9c\xd1\x42\xb6\xa9\x2b\x4b\x98\x96\x79\x4e\xa7\xd2\x33\x50\xf2\x35\x4c\xcb\x42\x83\xa3\x99\x67\xae\xb0\x02\x17\x84\x00\x05\x2b\xe6\xb9\x36\x4c\x34\xad\x18\x52\x78\x49\x11\x0f\x1f\x5f\x56\x48\xca\x67\x64\x4a\xfb\x76\x02\x81\xb9\xc9\xba\x8d\xa4\x1a\x27\x6b\xac\x12\x65\x2c\xe0\x01\xbc\x32\xeb\x99\x96\xcb\x09\x2b\x14\x9d\x96\x06\x45\x6f\x63\x47\xc6\x94\x92\x35\x2f\x80\x49\xa4\x2b\x22\x38\x25\x79\x4e\x39\x5a\x4c\xc4\x22\x9b\x86\x6a\x39\x7b\x04\xdd\x84\xc1\x9b\xc2\xad\x8f\x66\x9b\x4d\x6a\x47\x68\x13\xd0\x48\x82\xcd\x86\x93\x62\x4e\xe1\x53\x06\x17\x97\xe0\xfa\xbc\xd0\x5b\x86\x72\x6c\xb3\xf9\x94\x99\x31\x76\x16\x00\x70\x4b\x4d\x6d\x63\xb8\xd9\x68\xe1\xaa\xad\x4b\xdb\x2c\x0e\x4f\x81\x0c\x0c\xb1\xb7\x88\x04\xbc\x49\xe3\xa9\x7c\x04\x63\xa5\xa1\x6a\xc0\x7f\x47\xc8\x30\x67\x9b\xcd\x37\x25\x22\x06\x9f\xb2\xf4\xb5\x36\x41\xef\xd6\x95\x5d\x60\x02\xf1\x4e\x0f\x6d\x98\x7a\x5d\x46\x5a\xc0\x25\xb0\x09\x03\x6b\xb7\xaa\x36\x44\x94\xa6\x1d\x2b\x47\x64\x70\xf2\x24\x0c\x50\x59\x71\x0e\x9f\x5c\x42\xc1\x72\x84\x10\x98\xfd\x2a\x58\xae\x80\x84\xc1\x36\xb4\x6d\x16\x7a\x7a\x10\xa7\x64\x84\xf0\xc2\xad\x23\x27\x12\xf3\x05\xb9\xf7\xc8\x13\x6e\x36\xea\x20\x7f\x2a\x29\x22\x9a\x6e\xb1\xf3\x39\xf8\x54\xfe\x54\xd2\x3e\x42\x23\xac\xae\x95\x09\x24\xba\xa4\x9d\x6c\x92\xec\x6f\x37\x6c\xdc\xe2\x70\xff\xba\x77\xc9\x3a\x06\xee\x44\x6d\xb6\x09\xc4\x96\x18\x7e\xb3\xa2\x98\xb7\x1d\x01\xa7\x1f\x70\x21\x06\x42\x1a\x1f\xda\xed\x30\x08\x56\x6e\xef\x84\xbf\x77\x88\x9a\x42\x25\x09\x83\x8e\x5d\xdb\xdf\x36\xdc\x37\xdb\xba\xd2\xdb\x11\x20\x5b\x37\xba\xd9\xdf\x1b\x54\x8e\x4f\xf2\xfc\xfa\x71\x4a\x2b\xa9\xf4\x94\xd0\x22\xd6\x51\x4a\x69\x28\x74\x59\xcc\xd9\xb4\x2f\x04\xa8\x6d\x24\x08\xc5\xb3\x09\x1c\xa9\x5f\xb0\x2c\xcb\xe9\x03\xe1\xda\x0b\x7c\x23\xac\x5f\x88\x4e\x50\x55\xe5\x6b\x14\x31\x28\x36\x25\x02\x5f\xba\xde\xca\xeb\xa2\x2b\xca\xd7\x6e\xdb\xf0\xbc\xa0\x04\x31\x6e\x9b\x82\xf7\xaa\x42\xad\x41\xf2\x7c\x3d\x72\xfd\x04\x4c\x49\x01\x13\xaa\x74\x0d\xcd\x70\xd8\x64\x0d\x05\x92\x5d\x96\xd8\x4e\x1f\xa7\x79\x9d\xd1\x4c\x7b\x81\x13\x8a\x28\xe0\x9a\x2b\x9a\xa5\x7b\xd4\x88\x1b\x9c\x46\x10\xdd\x4a\x22\x6b\x11\x8d\x20\xba\x61\xc5\x3c\x4a\xdc\xb9\x3f\x73\x04\x49\x7a\xc7\x3b\x0c\x3d\xaa\x8c\x1a\x6c\xd2\x34\x15\xca\x2c\x50\xcc\xc3\x0a\xd3\x7c\x71\x09\x4b\x52\xbd\xd5\xaf\xde\x69\xf2\x6f\xb6\xc8\x5e\xbb\x07\xa6\xe3\xb4\x04\x41\x10\x79\x6c\x14\x5d\xc0\x66\x3b\x0a\x03\xdf\x8c\xdc\x86\x61\x80\xba\xfe\x3d\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\x66\xf0\x7e\x04\xe5\x3d\xbe\xb6\x88\xbd\xa5\x8f\xef\xbe\x82\x4f\xca\x7b\xc4\x36\x08\x2a\x52\xb0\x69\xdc\x58\x78\xb3\x38\xba\xb6\x20\xec\xba\xe1\x8b\xcf\xc4\x17\x90\x95\x54\x40\x51\x4a\xa0\x8f\x4c\xc8\xaf\x40\x50\xea\x6f\xbc\xf3\x29\x95\x49\x8f\x48\x25\x89\xe1\xe7\x8c\xe6\x54\xd2\xd8\x62\xa0\xde\x35\x0b\x60\xc5\xb4\x41\xdf\xf6\x51\xc8\xa1\x19\xc8\x8a\xe9\xd1\x24\x63\x33\x05\xec\xf2\x12\x5a\xc4\x53\xb0\x82\xa0\x53\xa8\xc2\xa5\xb7\x86\xb8\xb3\x0b\xae\x22\xd8\xee\x12\x5f\x1f\xc0\xef\xc8\x84\xe6\x34\x6b\xf8\x42\x07\x53\xe6\x54\x5a\x2e\x46\xce\x77\x74\x54\xcc\xfc\xb0\xa0\x85\x7b\x5b\x7a\x8c\x6b\x80\x69\xfe\x1b\xe9\xf3\x66\x8e\x44\xad\x3b\x83\x8e\xd0\x10\x1d\xe6\x61\x53\x34\x6f\x38\x9b\x2a\x83\xab\x59\x06\x3c\x2c\xd8\x74\xa1\x4e\x93\xa0\x45\x17\x0a\x46\xa7\x9b\xd1\xd6\xa2\x29\xb9\xd1\xe8\xfb\xab\xc2\xe3\x12\x6b\x56\x1e\xed\xcb\xe3\x0e\x11\x1d\xf6\xad\xeb\xa3\xa5\xd4\x1e\x52\x23\xb3\x4e\x45\x71\x4e\xa7\x94\xad\x50\x48\x51\xbd\xc4\x72\xd6\x5a\x77\x0a\xb7\x94\x3a\x30\x1e\x14\xf5\xc2\x9a\xa4\x06\xe1\xeb\x47\x44\x14\x79\x33\xa3\x92\xb0\x5c\xa0\xc5\x6c\x0f\x16\x02\xb1\x66\x2f\xc9\x99\x5c\xa7\x43\xc2\xa4\xb5\xf6\x78\xf9\x23\x28\xfa\x7f\x12\xe7\x7f\xa3\xc4\x69\x0d\x1b\xc1\x49\x02\xe8\xf8\xa0\xc5\xb1\xee\xe8\x37\xaf\x6f\xae\x70\x9d\x94\x9f\xec\x8f\xa2\x69\xe7\x0d\xc7\x10\xae\x68\x0c\x04\xb7\x53\x40\x56\x84\xe5\x64\x92\x53\xed\x4a\xcc\x5f\xdf\x5c\x41\x8f\x83\x60\x0e\x56\x1b\xb2\xf3\x1a\x45\x23\x25\x46\x50\x2a\x7b\x42\xe0\xc9\x68\xc5\x67\x14\xa3\x53\xae\xcd\x8d\xa4\x6f\x22\xdc\x2e\xe1\x75\x14\xc8\x1d\x6f\xdf\xf5\x43\x42\x3e\xee\x7a\xfb\x94\xce\x4a\x4e\x63\xc4\xf6\x85\x89\x33\xdd\x95\xc6\x22\x4d\x46\xb8\x6b\x3b\xf3\x5c\xa2\x31\x45\x8b\x2c\x6e\x35\xbb\xf5\xa4\x69\x9a\xa8\xe0\xc7\x66\x03\x77\xe5\x77\xe5\x03\xe5\x0d\x23\x22\xa9\x70\x73\xad\xb9\xf8\x39\x62\x84\x2f\x29\xdf\xa0\xeb\x74\x90\x7b\x37\x1b\x0b\xd3\xb1\x9c\xf1\xd6\x2f\xa0\xbd\x3a\x17\xbd\x89\x91\xaf\xdd\x0e\x74\x31\x2b\x5a\x29\xc1\x33\x15\x44\x47\x32\x78\x3d\x8c\xe1\xac\x3a\x5c\x17\x9d\x1d\x8c\x1b\x84\x3d\x5a\x04\x49\xd3\x14\x87\x21\x09\x77\xce\x00\x4a\xe3\x66\xdd\xbb\x5e\xb5\xb3\xdb\xbb\xb7\xdd\xf9\x00\x5a\xed\x79\x70\xfe\x04\x9e\x6c\x1f\xad\x01\x76\x88\x6d\xda\x3d\x93\xdf\x38\x62\x26\x94\x81\x22\xd8\x43\x55\x96\xcd\xaa\x8f\x5f\xf0\x41\x8c\xd5\xd1\x8b\x05\x9c\x35\x53\x25\x0d\xf8\x03\x1e\x32\x3a\x50\x3f\xad\x8b\xfc\x1e\xbd\xa8\xaa\xe5\x64\xf5\x11\x54\x2d\x46\xf1\x96\xef\x7d\x9d\xe8\x32\x57\x1f\xe9\x2d\x1b\x42\xeb\x03\x70\x98\xca\xe3\x31\x0c\x9d\x15\x60\x28\x23\x1d\x6b\xa8\x60\x72\xaa\x07\x98\x1e\x5f\xe3\x36\xa9\x80\x12\x26\x7f\x28\x97\x42\xc7\x9b\x8c\x5c\xdd\xa3\x91\x73\x8b\x31\xea\x83\x41\x2d\x7e\x9e\x95\x4b\xc2\x8a\xa1\xce\x29\xdc\x70\xb6\x24\x9c\xe5\x6b\x1b\x07\xf3\x83\x66\x5a\x4c\x0f\xad\x23\x7e\xbf\xcf\x23\xb8\x96\xd7\xf4\x43\xc3\x93\xca\x3f\xf7\x9e\xda\x11\x12\xe5\x91\x9b\x31\xc7\x78\xe4\x6e\x27\x3f\x0c\x6c\xd3\x75\x71\xf4\x36\x0d\x4a\xac\xce\x7d\xd2\x23\x6c\x97\xbe\x8d\x3a\xbc\x05\x66\x0a\xb5\x61\x03\xdb\x5a\xe5\xeb\xa3\xf6\x69\x70\x21\x5d\x1b\xd5\x15\x32\x19\xda\x29\x51\xe1\x56\xd9\x51\x47\x9c\x23\x6f\xb3\x44\xd5\xb5\x5b\xdf\xd2\x1c\xe3\xef\xa1\x66\xb4\x4e\xed\xda\x2d\x87\x96\x19\xd8\x7c\x4f\xfa\xe2\x59\xb2\xdb\x01\xf1\x45\x69\x7a\x3f\x82\x55\x63\x10\x2e\x9d\x25\xbb\x6a\xc5\x6a\x54\xda\x9a\xc2\x3d\x5d\xab\xed\xce\xd0\xe4\x9d\x94\x72\x81\x34\xb6\xb3\x98\x84\x2f\xc4\xf7\x89\xf1\x4e\xb0\x6b\x9e\x43\x8e\xfb\x65\xa0\x10\xe3\x93\xa9\xb8\xec\x15\x29\xca\x82\x4d\x49\xfe\x2d\x25\x19\xe5\xbf\xa0\x6b\xeb\xba\xe0\x44\xa2\x34\xd1\x62\x69\x3c\x41\x0b\x62\x3a\xa5\x36\x48\x42\x99\x5c\x50\x6e\x66\xc6\xf7\x48\x8a\x4b\xb7\xd6\xef\x99\x5c\xa8\x84\x05\x92\x68\xa4\xd6\xfa\xf6\xcb\x77\xc9\xc1\x8e\x3d\xd8\xc5\xf7\x49\x03\xc1\x38\x05\x66\xfb\xa6\xf2\x51\x69\x64\x6b\x18\x0e\xff\x51\xfb\xa8\x43\xd2\x27\x1b\x9b\x2f\xe9\x83\x37\x5a\x4f\xaf\xd2\x13\x26\xc6\x04\x13\x32\xbd\xc7\xed\x59\xdb\x33\xa3\x63\xf9\xb8\xd6\x82\xaa\xd4\x48\x0a\xcf\x25\xee\xa3\xc9\x0a\x18\x76\x65\x13\x86\x2e\x9d\xdd\x02\x13\xf4\x96\x25\x64\x8c\xe4\x3a\x32\x9e\x13\x49\x39\x4c\x31\x6d\x85\x3e\x3a\xf5\x61\x6a\x06\x6d\x61\x17\xe3\x6b\xad\x45\x53\x8d\xef\x55\x59\x14\x03\x16\xab\xee\x64\x2d\xd6\xb8\xc7\x64\xf5\x8f\x1c\x1a\x0a\xbb\x41\xd9\x60\xdf\x83\xf1\x03\xac\x8d\x68\x0b\x56\x84\x77\x49\x14\x6b\xcf\xed\x3b\xa2\x61\xb0\xe9\x36\x1e\xdd\x90\xcb\x7d\xf3\xd1\x10\x43\x71\x1d\xae\xdf\xfa\x9b\x1e\x4e\x5f\xd7\x79\x6e\x1d\xa1\xc6\x1d\xbd\x79\xea\xb7\x5d\x17\x07\x0c\xcb\x67\xf4\x90\x61\x79\x40\x1a\xe9\x38\x5b\xd0\x18\xe0\xf8\x98\xb8\xc5\xc7\xca\x8d\x54\xd4\x35\x56\xa8\x13\x54\x56\x8a\xd9\xae\xe2\xa0\x15\x0e\xe7\xc6\x0e\x77\x98\xda\xb1\x17\x98\xe6\x18\x20\xf1\xa8\x99\x37\xd8\x5a\x91\x89\xa2\x12\x57\x0e\xe6\x5c\xfc\x78\x23\x64\x40\xbb\x3d\xa3\xc7\x68\xb7\x61\x7d\x75\xac\x11\x62\x34\x49\x8f\x76\xd3\x47\xdb\x9c\xbd\x67\xf4\x44\xed\x86\x8b\x79\xad\x90\x39\x52\xbd\x61\x57\x67\x8a\xa0\xd2\x3d\x49\xc1\x55\xf9\xba\x4b\xc3\xf9\xdb\xf6\xe3\x8d\x92\x7e\xdb\xf1\xba\x38\xc2\x76\x3c\xbc\x21\x9e\x09\x39\xb0\xc3\x83\xb6\x63\x6b\xd7\x86\xd6\xd1\x6d\x92\x98\x25\x1e\xb7\x65\xa7\x66\x73\x86\x6d\x47\x83\x85\xd2\xa9\xe2\xae\xf4\xcd\x11\x7d\x52\xba\xe4\xb9\x99\x07\xcf\x89\x66\xd4\x01\x28\xf1\x3d\x5d\x0b\x78\xfb\xce\xc6\xf8\x0e\xc0\x3b\x2a\x1b\xb6\xcc\xe0\xec\x90\x29\xa4\x54\x41\x45\x18\x6f\x26\x0f\x03\x1b\xf1\xbb\x6f\x0c\x24\x85\xde\xc6\x84\xbf\x56\x36\xda\x37\x95\x8f\xa9\xa2\x49\x7c\x9f\xa4\x26\xb2\x99\x7c\x05\x36\xea\x17\x68\xc0\x2e\xe0\xa1\x1e\xb5\x39\xe2\xe2\x5b\x28\x44\x11\xa6\x7a\xd7\xb2\xbd\xce\x96\x19\xc6\xcd\xec\x02\x7e\x5e\xb2\x22\x3e\x5b\x66\xa3\xa6\xe9\x06\xc7\xc4\x6a\x24\x46\x4d\x12\x0b\xce\x50\x06\x6d\x13\x13\x34\xd3\x3b\x79\x6c\x48\xec\xdb\xbb\xbb\x1b\xe3\x2d\xd8\xb6\xc3\x7f\xc6\x61\xa8\x72\xf4\x9a\xca\x85\x62\x2f\xb8\x84\x88\x54\x55\xce\xa6\xaa\x2a\x45\x15\xfa\x7d\x05\xd3\x05\xe1\x82\xca\xcb\x5a\xce\xce\x7f\x16\xb9\x48\x1a\xce\x6a\xdc\x59\x93\x8a\x47\xc6\x5a\x98\x16\x75\x66\x0f\x47\xd8\x10\x58\x59\x40\xc5\x69\x46\x67\xac\xa0\x99\x2a\xa8\x10\xe6\xcc\xed\x4c\x73\x30\xae\xd6\xae\xe7\x69\xc7\xd5\xfc\x4a\x0f\x6b\x91\xb0\x19\xa4\x0a\xbe\x32\xde\x3d\xb9\xb5\x13\xdb\x41\xde\x79\xfb\xae\x1f\xba\xda\xff\xae\xd7\x26\xd8\xa6\xe7\x40\xeb\x54\xb4\x62\x6d\xdd\x83\xae\x51\x92\x6b\x71\xc3\x63\xea\x3d\xf4\x0f\x79\x32\x93\x94\xc7\xbb\x6f\xe4\x55\xb3\xb5\xb1\xb7\xcd\x89\x02\xb4\xbf\xca\xa3\x22\x7d\x26\xe4\xa3\xa2\x7a\x4b\x24\xcc\xb2\x7e\x44\xeb\xe9\x75\x59\x23\x0e\x49\xe8\x59\x14\x26\x65\x71\x71\xd9\x4b\x66\xd7\x75\x82\x65\x22\xc5\x1c\x01\x9a\x61\xe9\x53\xdd\x64\xc2\xd8\x4b\x3b\x2e\x46\xa3\xcb\x74\xc7\x82\xde\x09\xfc\x35\xdc\x95\x6f\xb0\x60\x71\xbb\x8d\x92\xf4\x86\xc8\x45\xab\x0f\x36\xdc\xd1\x65\x85\x56\xb1\xea\x61\xd9\xa9\xa7\xfc\x4b\x05\x10\xdb\x11\x44\x83\xd1\x9e\x81\xe3\xac\x39\x5c\x9e\x37\xa5\x4a\xa9\x38\xf5\xa0\x3b\xea\x1d\xc5\x8e\xdf\xe8\xcc\x98\x55\xc3\xfa\x75\x57\x30\x31\x50\xc9\x82\x26\xc8\xe6\xff\x34\x42\x63\x69\x8c\x2a\x9f\x69\x74\x0a\x4e\xf9\x0d\xda\x2c\xb0\xc9\x34\x3b\xe3\xf7\xf8\x9e\x8f\xd0\xf7\xc8\xe8\x8c\xd4\xb9\x44\x6d\xa7\x19\x04\x4f\xa4\x0a\x35\x96\x33\xd8\x95\x05\x23\x20\x30\x29\x33\xe5\xfe\xa1\x6c\xd0\xa9\x2f\x74\x02\x23\x35\x4f\xe4\xfc\xc6\x15\x4a\x59\x04\xa5\xda\x53\x85\x5d\x9c\x68\xef\x84\x80\x50\xa9\x6e\x40\x7a\x20\xa8\x3f\xff\xf2\xcb\x14\x9e\x9b\x64\x18\xf6\xf4\x63\xa4\xfa\xdc\x50\xae\x2a\xa9\xb1\x47\xc5\xcb\x15\x43\xc7\x76\xa1\xde\x60\x95\x40\x9e\x63\xee\x5d\x61\xab\x73\x90\xd8\xaf\xb1\xc9\x7c\xd0\x08\xc5\x83\x8e\xab\x48\x5f\x10\x2e\x16\x44\x55\x80\x59\xfc\x97\xba\x09\xd3\xf7\xa2\x9e\x4e\x29\xcd\x84\xf6\xa4\x7e\x7e\xfb\xea\xa5\x29\xc8\xce\x6c\xf5\xb4\x75\xc5\xd4\x5a\x1d\x3a\x98\x0f\xed\x5f\x96\xce\xf6\x63\x3d\x3c\x1f\x59\x07\xcf\xad\xac\x79\xd9\x82\x06\xac\x10\x92\x92\xcc\xd2\x4c\x0b\x49\x5f\x42\x74\x19\x22\xae\x70\x64\x04\x0f\xba\xde\xad\xcd\x06\xca\x66\xc4\x5d\x1d\xc1\x7b\x3c\x7e\x3e\x49\xb4\xf8\xc1\x94\x63\x45\xf9\x46\xed\xe2\x05\xae\xc5\x6e\x28\x5a\x22\x6c\x66\xa9\x85\x04\xd4\x8a\x16\xbb\xc4\x6d\xda\x36\x7a\x96\xcd\x00\x5f\x3d\x55\x53\x9a\xa1\xd7\x3a\x66\xea\x00\xd9\x71\x48\xee\x38\xf9\xca\xce\x80\xdd\x2e\x3d\x9d\x8b\x68\xc3\xa5\x03\x67\xdd\xfd\xe0\x21\xd5\x6c\x13\x27\xe9\x2d\x95\x71\x64\x04\xe1\xf9\xdd\xba\xa2\xd1\xc8\x57\x79\x7a\x01\x0b\xcb\x64\x3e\xfe\x6d\xf1\x60\xf9\xb0\x59\x87\xe5\xbf\x8b\x4b\x37\xde\xf4\x12\xe8\x82\x29\xab\xc4\x33\x49\x6c\x77\x1c\xea\x23\xf8\x8c\xe6\xf1\xbd\x4d\x0a\xda\x50\x0f\x1e\x1f\xd1\x33\xd6\x58\x3b\x5e\x38\xc8\x74\x57\x90\x7d\xd0\x4f\xb2\x2c\xde\xb1\x5e\xf0\x7f\xea\xdc\x21\xd6\xc8\x0c\x9a\xd7\x9e\xa3\x5d\x5a\x90\xdc\xd3\x40\x8a\x30\x62\x3a\x40\x12\x8f\x87\x1b\xaa\x28\xe0\x97\x20\xa6\x06\x32\xbe\x36\x1e\xe9\x43\xaa\x38\xce\xa0\x87\x1d\x13\xd7\x18\xe3\x56\x26\x28\xcc\x1a\xa6\xd6\x8e\x12\x8f\x27\xf5\x0c\xde\xbe\xc3\x8a\xde\xc4\x1c\xa4\x4d\xa8\x0c\xc1\x07\xf0\xf9\xd3\x05\xd0\x2d\x13\xbf\x29\x0c\xdb\x20\x84\x11\x7c\xfe\x90\x7c\xb5\x1b\x60\xd7\x26\x90\x60\xbf\xa5\x70\x09\x3f\xfb\xff\x7f\xf9\x17\x9a\x3f\x73\x5a\xe0\x98\x04\xfe\x4a\xbf\xc3\xae\x01\xa2\x71\x09\x93\x7a\xf6\xf6\x02\x1b\xdf\x99\x2d\x33\x82\x18\xcb\x53\x14\xdd\x66\x71\x64\x45\x0f\xe0\xa2\x54\x9e\xf8\x02\x63\x63\x98\x26\xae\xd0\x96\x82\xa2\x2c\xce\x91\x69\x9d\x97\x80\x1d\xa3\x11\x02\x37\x39\x60\x03\xd5\x54\x18\xbf\xa4\x0f\xf1\x83\x3e\x74\x8a\x46\x4a\x40\xfb\x6b\xb7\x55\x09\x9b\x30\x50\xbd\xf0\x19\x85\xd7\xaf\x71\x96\x0b\x23\x9d\x7f\x6d\x74\x05\x32\xb6\xe9\x45\x24\x13\x33\x86\x17\x51\x16\xd4\x89\x5a\x25\xa5\xbd\xcd\x6d\x7c\x18\x01\x4c\xdd\x19\xb1\x17\x67\x8e\x29\x0c\x4f\x75\xe6\xca\x9b\xd4\xa1\xaa\xd0\xc2\xcb\x0e\x76\x2a\x9c\x29\x74\x07\x0b\xc0\x2f\x16\x70\xf6\xbe\xe5\x91\x78\xd1\x00\x4d\x3c\x81\x1a\x27\xd0\x2e\xc0\x5b\xa4\xcd\x0c\x3d\xa3\xdd\xb9\x35\x76\xa2\x7a\x6c\x81\x30\x48\x85\xad\xe0\xfc\x6e\xf8\xe2\xa0\xc1\xe3\x05\xbc\x0e\x58\x3c\x2e\xe2\x31\x68\x5a\xec\x7a\xd0\x0a\xfb\xee\xec\x8b\x4a\xd2\xea\xab\x43\x38\x06\x25\xeb\xb9\x51\x64\xbe\x73\x6c\xe7\xb9\x21\x9c\x16\xd2\x38\x9c\x8e\x4f\x55\x59\x1b\xea\x3a\xc4\xca\xb6\x2a\xc8\xc8\xc1\x87\x82\xfb\x81\x17\xff\x18\x5c\x56\xa7\x43\x0d\x67\x46\x7b\xa9\x2e\xfd\xce\x74\x90\xd1\x19\xe5\xc0\x53\x54\x09\xe9\x15\x46\x41\x51\x00\x29\x89\x81\x8e\x76\xe3\x5b\xef\xac\xd5\x40\x46\xb5\x80\x16\x16\x1e\x78\x97\xcd\x33\xb7\x01\x5e\x53\x92\x3d\xc9\xf3\x58\x03\x3f\xae\x62\xd2\x5e\x11\x98\xa1\x36\x1d\x41\x64\x24\x01\x47\x4d\x6e\xad\x29\x5c\x99\x25\x67\x64\x95\x41\x5b\x10\x7d\xa9\xd6\x16\xd4\x56\xa8\xa1\xdf\x75\x71\x09\xee\x4a\x4c\x23\xee\x8c\x11\xa9\xba\x07\x4f\xf2\xbc\x7c\xb8\x21\x5c\x32\x92\x63\xc8\x4e\xf2\xda\x58\x9c\xcf\x98\x98\x12\x9e\xbd\x29\xd4\xf5\xa5\x8b\xe6\x8d\x2d\x1b\xc1\xa5\x5f\x82\x3f\xe1\x9e\x48\xc5\xc4\xe5\x9e\x50\xed\x16\xab\xfd\x82\xb5\x53\xb4\x1a\x34\x5a\xc4\x74\x07\x76\xd3\x41\x56\x43\xbd\x8f\x92\xb9\x9a\x20\x81\xa7\x10\x9f\x92\xcc\xb0\x83\x79\x87\x08\x34\x68\xb9\x50\x00\xba\xab\x37\x84\x93\xa5\xb0\xbe\xd0\xaf\x08\x17\x31\x4f\x4c\xa5\x4e\xf3\x1e\x03\x07\x1f\x6a\xca\xd7\x4d\x77\x9e\xbe\x79\xfd\x5d\xfa\x4b\x6c\x8c\xed\x00\xaf\x4b\xe8\x3b\x48\xba\x4a\xf6\xe2\xb2\xe1\x5a\x75\x9b\xc3\x78\x47\xaa\xce\xa6\xb0\xdd\xd2\xef\x4a\x6d\xb5\x43\xa4\x16\xa9\xfb\x60\x10\x57\x41\x49\xbf\xa1\x85\x9a\xd4\xed\x26\xba\x4e\xad\x88\xb1\xfb\x35\x8c\xc2\xab\x82\x96\xb3\x3d\x3c\xe8\x87\x7d\x3c\xd4\xb2\x7e\x0c\x22\xee\x58\x7d\xce\xe9\x87\x26\x1b\x6e\x3c\x22\x15\xa6\xb6\x5d\x9b\xb0\x63\x87\xb7\xd5\x29\x31\xfb\xf2\xa0\x5a\x3e\x0a\xeb\x7a\x38\xbd\x4e\x84\x92\x9f\xbb\xae\x86\x76\xbc\xf8\x09\x39\xce\x0e\x04\xbb\x64\x5f\xa7\xe1\xde\x97\xf6\x74\x26\x52\x9f\xa0\x78\xb1\x27\x26\x76\x85\x84\x93\x05\x6f\x04\xbd\x41\x01\x83\xf2\x52\xf8\xe2\xe3\x8d\xa0\xd7\x45\xbd\x7c\x59\x2f\x27\x94\x8b\x8b\xe6\xc5\xf5\x92\xc9\x37\x45\x55\x56\x35\xfa\xdb\x99\x13\x2b\xdb\xb0\x25\x4f\x1b\xdc\x2c\x3a\xae\xee\x3d\x8d\x15\xaa\xe9\x0b\x2a\x04\x99\xd3\x64\xa8\x32\xc2\xb2\xc1\xfb\x91\x91\x56\xce\x9c\x54\x96\x94\xd7\xcb\x4f\xd3\xba\xe2\x48\x61\x8c\x81\xae\x00\x4d\x77\x90\x72\x4f\x0b\xf5\xe5\x6b\x1b\xeb\x9c\x7b\xe6\xc4\x60\x86\x16\x01\xef\x67\x67\x17\x44\xc0\x82\x64\xa1\x4a\xaa\xf6\xe5\x63\x55\x16\x30\xc3\x1a\x50\x86\x21\xe7\x86\xbf\xfd\x7b\xc4\x72\x41\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\x06\x46\x66\xc6\x50\xae\x8b\x59\x5a\x74\x8c\x87\x8b\x68\x8b\x52\x03\x69\x27\x7d\x07\xd3\xbd\x83\x49\xdc\xfb\x91\xa3\x50\xfa\x0d\x95\xf1\x3d\x6e\xf8\x70\xde\x77\x07\xff\xf8\x3e\xe9\x82\x81\xf2\x19\xc9\x5d\x17\xb4\xb9\xaf\x35\x5d\xa0\x2c\x4b\xd5\x1b\x92\x8b\x12\xb7\xc0\x9c\x61\x25\xed\xa1\xe6\x79\x38\x3c\x7b\x64\xba\x9e\xe3\xad\xe6\x91\x11\xe2\x37\x44\x2e\x92\x43\x03\xdd\xae\x60\x95\x3f\xf2\x1c\x0a\x91\x28\xf9\xe8\xf4\x34\x82\x30\x19\x19\xdb\x76\x42\x7a\xda\x1b\xdd\xc4\x6f\x3b\xb2\xd3\x05\x60\x4f\x23\xbd\x20\x67\x2b\xb4\x5a\x89\x34\x54\x5b\x96\x52\x05\x2f\x30\x36\x41\x0a\xbc\x14\xf6\x3d\x56\xf8\x57\xfa\xfa\x99\x6e\x43\x39\x39\x2d\x97\x54\xdf\x8a\x68\x26\xc9\x98\x98\xe2\xa5\xfe\x35\x88\xb5\x90\x74\x39\x02\xa1\x8a\xcd\x73\x76\x4f\xf3\xb5\x65\x3a\x64\x23\x88\x16\xa5\x90\x17\xc8\xd1\x91\x11\xa0\xad\x15\xc4\x6e\x2a\x5b\xaf\xdc\x1b\x16\x3e\x3d\x79\xcd\x66\xf0\x89\x65\xb9\x6f\x89\xb8\xe1\x74\xc6\x1e\xdd\x8c\x23\x88\xf0\x54\x46\x2a\x8e\x12\x38\x3c\x2e\x75\xf3\xc5\x78\x1c\xc1\xff\x73\x94\x40\xae\x0c\x6a\x27\x05\x6b\x9e\xa7\x37\x68\x9d\x38\x68\x47\x97\x81\xa1\x71\x51\x87\xe6\x5a\x30\x7a\x96\x1d\x1e\x87\x49\xde\xea\xfb\x13\xd1\xcb\x52\x6f\xa4\x17\x3b\xd7\xf5\xfb\x8a\x20\x3a\xd2\x84\x80\x1e\x4a\x7e\x3f\x02\x1d\x8f\x07\xa3\xe9\xd1\xf1\xc3\x0b\x7e\x5c\xdb\x9b\xfa\x2d\x43\x12\x46\x4d\x4c\x58\x99\x0b\xc7\xfb\x42\xc1\x66\x83\xd7\x85\x77\x9d\x1f\x83\x34\xbe\x55\xe1\x45\x6b\x6c\xa0\x40\x65\x45\x46\x1f\xf7\x47\x7c\x69\xc7\x98\x4a\x81\x5d\xaf\x62\xa8\x50\x00\x8d\x0d\xf5\x77\x30\x30\xae\xe3\xaa\xb0\x57\x2d\x60\x0a\x01\x7a\x63\xd2\xc6\x82\x0c\xa6\x65\xb5\x7e\xf3\xfa\xbb\xb8\x1e\x81\xdf\xff\x29\x11\x14\xc5\x07\xc6\xa6\x6d\xd7\xc6\x3a\xd8\xc7\xaa\x6d\x97\xb6\x03\xd0\x86\x32\x1d\x35\x05\x7b\x05\x03\xc1\x6e\xcd\x80\xb5\x6d\x9b\xdd\x6c\xfd\x6e\x7e\x3a\x71\xd5\x59\x46\x30\xb8\xef\x70\xfe\xa7\xda\xf9\xbe\x28\xbd\x29\x53\xd8\x25\xa2\x7d\x6d\xea\x2d\x06\xd7\xeb\x95\x2f\x28\xc9\x63\xf7\x71\x42\x04\x85\x33\x3c\xc3\x6f\x5e\x7f\x37\x52\x99\x2b\xa3\x9a\x12\xd7\x8c\xe7\xb7\x40\xbb\xe0\xe2\x12\xce\x70\x80\x7e\x54\x59\x0a\xe3\x1e\x38\x72\x7e\x8e\x6f\x4c\x80\xe1\x4a\x3e\xda\xbc\xeb\x2d\xda\xb7\x53\x55\x3f\x5f\x73\x13\xaa\x41\x76\xb4\x07\x57\x96\x50\xd5\x79\xae\xda\x8d\x9e\xa3\x19\xd6\x80\x09\x28\x6b\x54\xdd\xd6\x7c\x35\x6a\x49\x85\x77\x8c\xda\x5b\x5a\x13\xd6\x77\x40\xd1\x56\x30\xe1\x8e\x14\xe0\x65\x29\xcd\x7d\x60\x04\x89\xb0\x94\xa4\x58\x90\x15\x05\xfb\x9d\x8f\x61\x93\x44\xcd\x33\x51\xa9\x30\x73\x25\x4e\xdd\xf9\x41\xc9\x6f\x51\xc3\xdb\xd5\x26\x79\x40\x6c\xcd\x93\xb2\x3d\x70\x55\x6b\x17\x05\x77\x79\x43\xff\xc2\x1e\xe5\x4e\xe1\x9a\xbc\x75\x9b\x76\x3a\x57\xed\x5d\x48\xe9\xd7\x07\x7e\xc4\xa7\xa3\x93\x49\xe7\x0d\x5c\xe8\x3c\xc2\x3a\xfc\xc9\xb2\xd5\xce\xe2\xc1\x10\xf7\x6e\x98\xd7\x2e\x43\x27\x95\x13\xe4\x2a\xa4\x35\x4a\x94\xbe\xda\x9b\x83\x02\x7b\x37\x24\xd5\x29\x6c\x06\x23\x52\xbb\xfe\x95\x09\x47\x69\x6b\x6c\x37\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x1a\xdf\x67\x37\x24\x65\x9a\xd1\xf1\xd5\x66\x9e\x49\xc1\xb8\x37\x68\x50\x13\x15\x0e\xf8\xb3\x2f\xbf\xf4\x73\x51\x23\x78\x30\x09\x17\x15\xf0\xac\x38\x45\x23\x87\xa8\xf3\x40\x0a\x05\x4b\x19\x05\x8a\x51\x89\x94\xf8\xc5\x06\x3c\x3f\x7a\x15\xfe\xf9\x33\x01\x6c\x58\x6a\x17\xa6\xc1\xd1\x22\x71\x30\x64\x66\x6b\x4f\x3a\x42\x66\x9d\x64\x1f\x8e\x98\xe9\x49\x4f\x0f\x99\x9d\x12\x01\xbb\xc4\x2e\xe9\xf5\xab\xaf\x7b\x83\x60\x18\xc5\x6e\x62\xe3\xc8\x18\x8a\x04\x80\x74\x5c\xfb\x51\xaf\x1d\xf3\xa7\x0b\x16\x06\xd4\x3a\xe2\x69\x0e\xa8\x01\xa7\xe1\x71\x2f\x17\x01\x9f\xb4\x12\x1f\xaf\x7e\x31\x38\xc5\x2c\xde\xcd\x44\x24\x23\x88\x3c\x9e\xb9\x80\x2f\x3e\xcb\xbe\x88\x46\xad\x39\xdc\xdc\x68\x8e\xe0\x82\x0f\x71\x73\x78\x72\x5c\xaf\x37\xac\xd7\x17\xd5\xdb\x86\xc7\xc7\xf4\x44\x95\x7c\x75\x78\x13\x7c\xa2\xd8\x05\x9b\x4e\x9f\x37\x65\xd2\x41\x3b\x2e\xe3\x0b\xa0\xeb\xe2\x44\x01\xe4\x7a\x7a\x86\xc1\x9e\x49\x70\x6e\x44\xd5\x11\x26\xd4\x60\x2c\xc8\x45\xcf\x43\xe7\xed\x9a\x70\x10\x90\xe3\x03\xe6\xea\xdb\x15\x78\xf2\x57\x84\xb3\xb2\x16\x80\xea\x04\xad\x30\xd4\xcb\xc1\x78\xbc\xaf\x7c\x63\xb4\x23\x46\xa0\x02\x66\x3a\x61\x8e\x87\x24\xb1\xa2\xe0\x88\x65\x0d\xcb\x02\xd5\xa5\xa7\x3e\xcd\x85\x8e\xf0\x03\x54\x2b\x92\xe3\x5e\x44\x91\x89\x4c\xea\xa6\xe1\x6f\x0f\xec\x10\xc3\xcc\xa6\x99\xdc\x46\x38\x39\xfd\x10\x86\x3b\xea\xab\xd7\x35\xde\xed\xd7\xef\x7b\xeb\xa8\xc4\xad\x92\xd9\x78\x41\x5f\x2e\x30\xf0\x4b\x96\x54\x62\xda\x06\x6f\x91\xcb\x05\xa2\x6d\x3d\x39\x55\xa0\x65\x93\x4a\x3b\x37\x50\x05\x55\xe1\xa1\x56\xac\x13\x67\xb9\xd5\xed\x2e\xd8\x69\x3b\x6e\x77\xef\xa1\xa2\xc9\x18\x8d\x15\xfe\x5d\xde\x1e\xe2\x32\x9c\x3c\xd8\x95\x41\x28\xe7\xca\x3a\xcf\x8a\x2f\x64\x73\x7a\xf5\x2a\x3f\xfb\x10\x69\xe3\xd3\x4a\x50\x4d\x95\xd7\xe4\xc1\x18\x99\xb5\xfd\xed\xde\xb9\x17\xf8\x63\x87\x72\x8a\xf1\xda\xa4\xf3\xd2\xd1\x3b\x11\x6b\x14\x70\x72\x59\x99\xf4\xac\xd9\x60\xb9\xac\xda\xe4\xec\x8b\x5d\x83\xa5\xe3\x39\x1c\x17\x36\x66\x33\x75\x20\x4c\xb7\xd7\xb4\xa2\x18\x63\xb4\xc3\x9e\x8b\xa7\xc4\x93\xa8\x0d\xe4\xf8\xca\x7e\xc1\xcf\xf4\xfc\xa6\xc4\x5e\x10\xd9\xed\x8f\x12\x3b\x42\x2f\xf5\x6d\xe4\x42\xd4\xbf\x74\xf1\x78\x53\xe4\xfd\x4e\xb3\x70\xea\x7a\x5c\x91\x25\x35\x55\xe1\xcd\xac\x34\x17\xee\x79\x3f\x61\xdf\x37\xde\xe6\x43\x0c\x1a\x2a\x81\x3f\x80\xca\xc8\xfb\xec\x55\xbc\xc2\x98\x57\x93\x37\x69\x71\x23\xe2\x84\x18\x21\x31\x4a\x0e\x31\xea\xcb\x3d\xa2\x25\xbb\x74\xb5\xf8\x2b\xba\x9b\x77\xb7\x92\xf0\xeb\xc7\x8a\x6f\xb7\x6c\xd6\xbf\x0c\xcb\xd0\xd0\x78\x56\x41\x10\xc8\xa5\xb9\x1d\xb7\x53\x64\xd2\x07\xc6\xac\xa7\xe3\x90\x74\x9e\x13\x73\x4c\x66\x84\xe5\xba\x0a\xc8\x9e\x92\x3e\xf8\x51\x9b\x60\x46\xe4\x59\x09\x11\xcb\x65\x95\x84\x27\xed\x86\x86\x90\x0c\x51\x0d\xb6\x2d\x9a\xe8\x6d\xb1\x04\xda\x6c\xc6\x67\x7f\xf8\xd7\xbf\xf9\xe1\xf7\xff\xfc\xc3\x3f\xfd\xdb\x0f\x7f\xff\xbb\x3f\xfe\xe3\xdf\xfe\xe7\xbf\xff\xc7\x1f\x7e\xff\x77\x3f\xfc\xcb\xef\xfe\xf8\xbb\x7f\x38\x1b\xc3\xf9\xf0\x9e\x38\x82\xf5\x2d\x19\x3e\xb9\xf4\x89\xf8\x11\x6c\x76\xd6\x07\x7a\x8f\xfd\xfc\x95\x7d\xc4\x44\x87\xe6\x69\x93\xb1\x29\x4a\xdc\x79\x32\x0f\xdb\x6d\x5b\x24\x95\x98\xb9\xea\xcb\x65\xed\xcb\x25\xd5\xbd\x5f\x2e\x35\x60\x2b\xa7\x37\xf4\x10\x63\xb3\x41\x6b\xdf\xdc\x11\x2c\xd5\xdb\xf6\x19\x34\x6d\xbb\x87\x10\xed\xd8\x15\x5e\xf0\xd1\xe5\x38\x86\x3a\xa6\xb3\x47\x1e\x55\x3c\x6e\x81\xa8\xfc\x9c\xd1\xbe\x9e\xe7\x38\x70\x16\x57\x24\x4f\x1b\x75\x6e\xc0\x18\xc2\xdb\xb1\xdd\x07\xf2\x63\x8e\x64\x0b\xbe\x3d\x8e\x8e\x85\x86\x8e\xe4\x1e\x4b\x19\x50\x87\x4e\x65\x37\x7b\xfe\xc4\xc4\x3d\x1a\x35\x8f\xdd\x87\x08\xbf\x87\xbb\xcf\xed\x3b\x8f\xad\x27\xf3\xa0\x02\xb3\x8d\x59\xa0\x10\x81\x4b\x53\x65\x66\x0c\xde\x58\x59\x50\x86\xe5\x0b\xcf\x94\x53\xe1\xcc\x68\x4e\xa5\xfe\x6e\xa3\x6f\x2a\xa0\x61\xda\xb6\x14\x64\xf9\x9a\xca\x8f\x35\x0e\x8f\xb1\x18\xce\x0f\xe4\x99\xdb\xf9\xee\xf1\x19\xbc\x2a\xf2\xb5\xfa\x06\x14\x22\xac\x7a\x0b\x93\xef\x12\x0b\x34\xa8\x60\xe2\x82\x49\x38\x16\x53\x10\x78\x1b\x52\x51\xb6\x94\x0b\xbf\xc0\xb4\x5c\x32\x89\xe6\x46\x56\xab\xcf\xd3\xa0\xdb\xca\x0a\x2a\x04\x9c\x8d\xcd\x8c\x6a\xf9\x9d\x52\xeb\x80\xd1\xd0\x08\xb3\xd6\xfe\x99\xe3\xb2\xeb\x11\xbe\x38\xec\x0f\x36\x0e\x61\x6f\x0a\xb7\x3f\x87\xdb\x9b\xc4\x55\xa7\x07\xef\x67\x38\x9b\xd6\x61\xe8\x24\xc8\xc1\x2f\x89\x0d\x99\xb6\xda\xc3\x52\x1e\x3c\x46\x5d\x50\x34\xc1\x67\xab\x68\x04\x8a\xb2\x8d\x81\xfb\x14\x3b\xb8\x98\x84\xfb\x46\x67\x8c\x45\x82\x02\xcb\xd1\x9f\xd6\xb3\x19\xe5\x31\xe2\xea\x17\x51\x83\x5f\x49\x60\xdc\xd3\x60\xff\xc3\x65\x07\x3f\x5b\xe2\xbe\x63\x7a\x6c\xaa\xee\xe5\x93\xbb\xdb\x8f\xb9\xa3\x61\x6b\xcd\x70\x3c\xe8\xf0\xa6\x7b\x36\xf7\x36\x11\x17\x44\xb4\x18\x81\xe0\x2b\xfd\xec\xbe\x4b\x67\x1c\xba\xfd\x4f\xe2\x1d\x7b\xf7\xb2\xeb\x16\xe5\x6d\x3d\x71\x0c\x80\x38\xa0\x26\xaf\xe9\x6d\x3d\x11\x53\xce\x26\x34\xde\xb9\x35\x69\x64\xa7\x77\x6f\x0a\x9d\xbc\xae\x3e\x28\xad\xf9\xca\xff\x66\x87\x02\x42\x5f\x88\xb9\x5a\x6c\x72\x90\xb3\x0c\x87\xa0\x9f\xd9\x8d\xb8\x77\x2b\xd1\x63\x83\xcd\xa6\xf5\x19\x0b\x72\x4f\xbd\x0d\x3b\xf6\x43\x31\x38\xe4\x88\x0f\xc5\x34\x90\x0f\x5e\x68\x69\x7d\x24\x37\x75\x04\x36\xd7\x04\x12\x7f\xaf\x7b\x3e\x10\x33\x0c\xc1\x54\x24\xfc\xcf\xfb\x4e\x4c\xb3\xae\x83\x37\x54\x0d\x93\xba\x3d\xbe\x80\xf6\x9a\xf1\x5e\x87\x5b\xf6\x49\x1f\x87\xc1\x8d\xf2\x7a\x18\x7d\x35\x32\xf7\xdb\xaf\x8b\xce\x3e\x5e\xca\xad\xe9\xb1\x53\xe2\x73\xea\xd7\x63\xbc\x5d\xf6\xae\x10\x9c\xfe\xf5\x18\x0f\x8e\xab\x17\x3e\x4c\x5c\x6f\x79\x00\x70\xd6\xa6\x6e\x43\xda\xbd\x8f\xc1\x98\x99\x76\xd3\x0c\x7d\xf3\x78\x81\x6e\x24\xd9\x66\xd3\x26\x7b\x77\xc2\x65\x29\xe6\x46\x00\xbe\x10\xf3\xfe\xf8\xf6\x7e\xe9\x67\xd7\xb5\xca\x81\x02\xf2\xa5\x98\xa7\xcf\x94\xde\xeb\x2e\x79\xec\xca\xd0\x5b\x5e\xee\xb9\xa3\x69\xc8\x63\x82\xa0\x4d\xcd\x5a\x07\xbf\xec\xc6\x29\xd5\x82\x8f\xa8\x59\xc3\x18\x1a\x94\x93\xdf\x60\x2d\x86\x09\x43\x0a\xb7\x5f\xf6\x7b\x1c\x2f\x48\xb1\xd6\xa9\x17\x4c\xc8\xd9\xda\x0c\xfd\x59\xbf\x1a\x43\x06\x98\xff\x40\xf4\x50\x00\x16\x82\x61\xf6\xcd\xdc\x1a\x32\x42\xad\x17\xef\x9e\x24\x19\xce\x6b\x2c\xfa\x11\x14\xd3\x96\x06\x73\xe9\x81\xee\xb8\xa4\xa5\x73\x8b\x07\xf5\xfc\xb8\x04\x7f\x62\x33\x11\xce\xd0\x80\x4d\x4e\x29\xaf\xc1\x15\x99\x50\xb5\x6d\x3b\xa1\xbc\xc6\x1b\x7d\xe0\xeb\x0f\xb8\xfc\xff\xee\xaf\x3f\x34\xd8\xed\x5b\x11\xbd\x0a\xe8\xa6\x9e\xe4\x4c\x2c\x28\x3f\xa5\x7a\xa6\xfb\xd3\x0f\xc7\x5a\x1f\x1f\xf3\xed\x07\x5b\xd1\x31\x34\xec\x72\x87\x87\x5e\xd2\x07\xb7\x3a\xa5\x24\xbc\x8f\x40\x04\xc1\x11\x06\x4d\xe8\xd5\x6d\xb4\x8e\x82\x5f\xac\xf1\x8c\x1e\xd2\x19\xfb\x55\x1a\xbb\x45\x1a\xad\xa2\x58\x27\x50\xec\xc9\xe8\x2c\xc9\xe8\x14\xb9\xc6\x95\xf2\x10\xd9\x29\x99\x38\xfd\xcb\x0e\xb8\xb0\xbe\xec\x72\x9f\xd8\x77\x49\xe5\x1e\xaa\x74\xca\xbe\xe3\xbe\xec\x60\xf5\xc2\x9f\xec\x1b\x0e\x3d\x28\x1f\xa1\xaa\xa0\x5f\x57\x61\x2d\xdd\x11\x6a\x88\x72\x6e\xe7\xdb\x53\x47\xe3\x31\xec\x6b\xa4\xf1\x18\xb6\x1e\x74\x3b\x38\x55\x05\xf5\x76\xf0\xe7\x9f\xef\xbf\x4b\x31\xa5\xa9\xbe\x1f\xf9\x9e\x99\x6b\x62\xef\xa3\x9e\x69\x6c\x9a\x77\x1f\x88\xad\xe6\xb5\x88\x74\xa4\x46\x3b\xbf\x4c\x71\xac\x52\xee\xca\x59\x0e\x6b\xe5\xee\x0f\x39\xf9\x3c\x6c\x74\x73\xb7\x6a\x36\xe9\xb3\x01\xcd\xdc\xbe\x7f\xe3\xfe\xcb\x3b\xa6\x84\xc7\x44\x48\x94\xeb\xd0\xa3\xac\x71\xab\xad\xa4\x7f\x21\xe6\xbb\xba\xfa\x5c\xe1\xfa\xd3\x28\xec\x63\x6d\xac\x43\x89\x43\x4b\xf2\x5e\x05\xed\x26\x52\x27\xc2\x81\x4b\xbc\x6d\xf8\xaf\x01\x00\x2e\xef\x6a\x5e\x29\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xdb\x48\x76\xf8\x99\xfc\x14\x6f\x88\xf9\x43\xf6\x4f\x4d\xcd\x2f\x40\x82\x4d\x0f\x3a\x80\xdd\xee\x99\xf1\xee\xd8\xee\x75\xb7\x77\x0e\x86\xe1\x2d\x89\x25\xa9\xb6\x29\x92\xae\x2a\xaa\x5b\xab\xe8\x92\xcb\x06\x48\x80\x00\x39\xe5\x10\x2c\x72\xca\x35\xc8\x39\x9f\x67\x27\xd8\x6f\x11\xbc\xfa\xc7\xa2\x44\x52\x92\x67\x36\x08\x82\x18\xbb\xb6\xc8\xaa\x7a\xf5\xea\xd5\xab\xf7\xbf\x38\xe3\x31\x5c\x95\x19\x85\x39\x2d\x28\x27\x92\x66\x30\x59\xc3\x84\xf0\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x0e\xae\x9f\x3d\xbf\x4b\xc3\xf1\x18\x5e\x53\x5e\x17\x05\x2b\xe6\xba\x03\x3c\xb0\x3c\x87\x72\x45\xf9\x03\x67\x92\x82\x5c\x30\x01\x33\x96\x53\xd5\xf9\x57\x94\x0b\x56\x16\x17\xb0\xd9\xa4\xe6\xf7\x76\xeb\x35\xc0\x33\x22\xa9\xdf\x8a\xcf\xdb\x6d\x18\x56\x64\x7a\x4f\xe6\x14\x5b\x6e\xf4\xcf\x97\x64\xa9\x5a\xc6\x63\xb8\xb3\x73\xc0\xb4\x2c\x24\x61\x85\x80\x25\x95\x8b\x32\x13\x20\x4b\x58\x92\x7b\x0a\xac\xc8\xd8\x8a\x65\x35\xc9\x81\x16\x59\x55\xb2\x42\x0a\x98\xf1\x72\x09\x82\xf2\x15\x9b\x52\x31\x42\x34\x38\xfd\x50\x53\x21\x81\x14\x19\x70\x2a\xaa\xb2\x10\x14\xe4\xba\xa2\x0a\x12\x76\xc5\x15\x95\x82\x36\x50\x46\x40\x04\x3c\xd0\x3c\xc7\x7f\x69\x31\x2d\x33\xca\x05\x02\x40\x78\x19\x35\xcf\xb3\x92\x9b\x81\x0a\xda\x48\xbd\x20\x48\xa9\x19\x94\x35\x07\x51\x57\x55\xc9\x91\xd2\x92\x93\x42\xe0\x6f\xc4\x8c\x91\x9c\xfd\x96\x48\x56\x16\x08\x6d\x56\xf2\x25\x91\x22\x0d\x43\xb6\x54\x3d\xe2\x30\x88\x26\x6b\x49\x45\x14\x06\x11\xae\x9d\x3e\x4a\xfc\xa9\xd0\x60\xc5\x7c\xfc\x1b\x51\x16\xf8\x62\xb6\x54\xef\x59\xa9\xff\x1e\xb3\xb2\x96\x2c\xc7\x87\x82\xca\xf1\x42\xca\xca\xfe\xae\xb9\x7a\x2d\x24\x9f\x96\xc5\xca\xfc\x64\xc5\x5c\x44\x61\x18\x44\x73\x26\x17\xf5\x24\x9d\x96\xcb\xf1\xbc\x3c\xbf\x67\x72\x8c\xff\xb7\xb4\x88\xc2\x80\x14\xeb\x6a\x02\xd1\xbc\x2c\xe7\x39\x4d\xe7\x65\x4e\x8a\x79\x5a\xf2\xf9\xb8\xe2\xa5\x2c\x27\xf5\x6c\xac\xd6\x3f\xbe\x2f\xca\x87\x62\xac\x7a\x47\x61\x90\xd5\x5c\x2d\xf2\x84\xa1\xcd\x90\x28\x0c\xe8\xb2\x92\xa7\xcc\x6b\xfa\x47\x61\x30\x63\x34\xcf\x96\x44\xdc\x9f\x30\xda\x1b\x13\x85\x81\x90\xbc\x9e\xca\x13\x86\xdb\x01\x51\x18\x48\xb6\xa4\x42\x92\x65\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x9c\x54\x15\xe5\xe2\x04\x00\xcd\x90\xfd\x2d\xe5\x2c\xcf\xc9\x78\x59\x3f\x46\xed\x96\xea\x7e\x3e\xa6\x9c\x97\x5c\x71\xda\xc0\x44\x8e\xf3\xd4\x1b\xcb\x7e\x03\x03\xd4\x0f\x44\x64\xb3\x39\x07\x36\x03\xfa\x01\xd2\xab\xb2\x98\xb1\x79\x7a\xe7\x4e\x42\x44\xf2\x3c\x82\xa8\x20\x52\x44\xb0\xdd\xb6\x71\xc3\xb7\xe7\xac\x54\xff\xa6\x73\xe4\x70\x04\x45\x8b\x6c\xbb\x3d\x0a\xea\x9c\x57\x53\x0b\x75\x0f\x4f\xd5\xd8\xdb\x32\x5e\x52\x49\x32\x22\xc9\xee\xa4\x47\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\x34\xc4\xc6\x5f\x27\x4c\x81\xdd\x5b\x38\x26\x61\x18\xae\x08\x87\x38\x0c\xde\xc3\x25\xcc\x96\x32\xbd\xad\x38\x2b\xa4\x7e\x56\x02\x2c\xbd\x2a\x97\x15\xe1\x54\xbf\x32\xd2\x27\x7d\x22\x4b\xa6\xdf\xb4\x96\x99\xbe\xa4\x0f\xb7\x94\xaf\x28\xd7\x8d\x5a\x9a\xa5\x2f\xcb\xea\x2a\x2f\x45\xf3\x36\xbd\x2a\xab\xb5\x7e\xd0\xcc\x9b\x7e\xcf\x49\x15\x06\xe3\x31\x98\xfd\xb4\x6c\xa8\x65\x3c\x76\x55\x22\x29\x7d\x52\xa8\x71\x8d\x90\x49\x9f\x99\x9f\xf8\xda\x88\x8f\xf4\x1a\xff\xc5\x17\xf6\x48\xa7\xb7\xea\x07\xbe\xf2\x8e\x69\x7a\x67\x7f\x63\x43\x73\xfc\xb0\x37\x2b\xe6\xbf\x22\x79\xad\xd6\xed\xc9\x95\xf4\x6b\xfc\xfd\x82\x88\xfb\x30\x09\xc3\xf1\xd9\x51\x7f\xe0\xda\xea\x24\xb0\xaf\x0e\xff\x19\x2b\x0d\xfa\xbc\x00\x82\xfa\x66\x45\xf9\x08\x98\xfc\x42\x40\x2d\xe8\xac\xce\x95\x9a\x9a\xd5\xc5\x14\xa9\x20\x40\x2e\x88\x84\x82\xa2\x96\x2a\xa1\xac\x94\x6d\x00\x25\x8e\xad\x28\x3f\xb7\x6a\x00\x01\x4e\x88\x60\x22\x85\xaf\x4b\x0e\xf4\x91\x2c\xab\x9c\x8e\x60\x5d\xd6\xb0\x64\xf3\x85\x84\x8a\x08\x54\x91\x1e\xc2\xb2\x04\xe2\x26\xd2\xf3\x54\xbc\xcc\xea\x29\x15\x08\x8e\x14\x8a\x03\xd2\x6f\x49\x91\xe5\x88\xe3\x03\x93\x0b\xa0\x64\xba\x30\x9a\x1e\x62\x3b\x7b\x02\x0f\x8c\xd3\x0c\xea\x0a\x91\x24\x20\x2a\x3a\x65\x33\x36\x85\x8a\xc8\x45\x0a\xf1\x73\x89\x00\x99\x80\x8a\x97\x13\x32\xc9\xd7\x40\x60\xc9\x84\xd4\x56\x02\x64\x54\xb0\x79\x81\x43\x59\xb1\x2a\xef\x51\xdd\x53\x40\x66\x63\x53\xea\xac\x0a\x85\x22\x45\x38\xcd\x0a\x34\x0f\x00\x6b\x28\x99\x26\xe1\x78\xec\xa8\x3b\xcd\x19\x2d\x64\x9b\xba\xb2\x84\x69\x99\xe7\x74\x2a\x3d\x03\x25\x5f\xc3\xb4\x2c\x34\x38\x9a\x79\xe6\x0a\x2b\x70\x41\x08\x50\xb0\x62\x9e\x6b\xc3\x44\xd3\x8a\x21\x85\x97\x14\xf1\xf0\xf1\x65\x85\xa4\x7c\x46\xa6\xb4\x6f\x27\x10\x98\x9b\xac\xdb\x48\xaa\x71\xb2\xc6\x2a\x51\xc6\x02\x1e\xc0\x2b\xb3\x9e\x69\xb9\x9c\xb0\x42\xd1\x69\x69\x50\xf4\x36\x76\x64\x4c\x29\x59\xf3\x02\x98\x44\xba\x22\x82\x53\x92\xe7\x94\xa3\xc5\x44\x2c\xb2\x69\xa8\x96\xb3\x47\xd0\x4d\x18\xbc\x29\xdc\xfa\x68\xb6\xd9\xa4\x76\x84\x36\x01\x8d\x24\xd8\x6c\x38\x29\xe6\x14\x3e\x65\x70\x71\x09\xae\xcf\x0b\xbd\x65\x28\xc7\x36\x9b\x4f\x99\x19\x63\x67\x01\x00\xb7\xd4\xd4\xbe\x0c\x37\x1b\x2d\x5c\xb5\x75\x69\x5f\x8b\xc3\x53\x20\x03\x43\xec\x2d\x22\x01\x6f\xd2\x78\x2a\x1f\xc1\x58\x69\xa8\x1a\xf0\xdf\x11\x32\xcc\xd9\x66\xf3\x4d\x89\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xbb\x75\x65\x17\x98\x40\xbc\xd3\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\x6c\xc2\xc0\xda\xad\xea\x1d\x22\x4a\xd3\x8e\x95\x23\x32\x38\x79\x12\x06\xa8\xac\x38\x87\x4f\x2e\xa1\x60\x39\x42\x08\xcc\x7e\x15\x2c\x57\x40\xc2\x60\x1b\xda\x77\x16\x7a\x7a\x10\xa7\x64\x84\xf0\xc2\xad\x23\x27\x12\xf3\x05\xb9\xf7\xc8\x13\x6e\x36\xea\x20\x7f\x2a\x29\x22\x9a\x6e\xb1\xf3\x39\xf8\x54\xfe\x54\xd2\x3e\x42\x23\xac\xae\x95\x09\x24\xba\xa4\x9d\x6c\x92\xec\x6f\x37\x6c\xdc\xe2\x70\xff\xba\x77\xc9\x3a\x06\xee\x44\x6d\xb6\x09\xc4\x96\x18\xfe\x6b\x45\x31\x6f\x3b\x02\x4e\x3f\xe0\x42\x0c\x84\x34\x3e\xb4\xdb\x61\x10\xac\xdc\xde\x09\x7f\xef\x10\x35\x85\x4a\x12\x06\x1d\xbb\xb6\xbf\x6d\xb8\x6f\xf6\xed\x4a\x6f\x47\x80\x6c\xdd\xe8\x66\x7f\x6f\x50\x39\x3e\xc9\xf3\xeb\xc7\x29\xad\xa4\xd2\x53\x42\x8b\x58\x47\x29\xa5\xa1\xd0\x65\x31\x67\xd3\x36\x08\x50\xdb\x48\x10\x8a\x67\x13\x38\x52\xbf\x60\x59\x96\xd3\x07\xc2\xb5\x17\xf8\x46\x58\xbf\x10\x9d\xa0\xaa\xca\xd7\x28\x62\x50\x6c\x4a\x04\xbe\x74\xbd\x95\xd7\x45\x57\x94\xaf\xdd\xb6\xe1\x79\x41\x09\x62\xdc\x36\x05\xef\x55\x85\x5a\x83\xe4\xf9\x7a\xe4\xfa\x09\x98\x92\x02\x26\x54\xe9\x1a\x9a\xe1\xb0\xc9\x1a\x0a\x24\xbb\x2c\xf1\x3d\x7d\x9c\xe6\x75\x46\x33\xed\x05\x4e\x28\xa2\x80\x6b\xae\x68\x96\xee\x51\x23\x6e\x70\x1a\x41\x74\x2b\x89\xac\x45\x34\x82\xe8\x86\x15\xf3\x28\x71\xe7\xfe\xcc\x11\x24\xe9\x1d\xef\x30\xf4\xa8\x32\x6a\xb0\x49\xd3\x54\x28\xb3\x40\x31\x0f\x2b\xcc\xeb\x8b\x4b\x58\x92\xea\xad\x6e\x7a\xa7\xc9\xbf\xd9\x22\x7b\xed\x1e\x98\x8e\xd3\x12\x04\x41\xe4\xb1\x51\x74\x01\x9b\xed\x28\x0c\x7c\x33\x72\x1b\x86\x01\xea\xfa\xf7\x88\x0a\x82\xd1\x20\x1d\x5a\x38\x13\x9b\xc1\xfb\x11\x94\xf7\xd8\x6c\x11\x7b\x4b\x1f\xdf\x7d\x05\x9f\x94\xf7\x88\x6d\x10\x54\xa4\x60\xd3\xb8\xb1\xf0\x66\x71\x74\x6d\x41\xd8\x75\xc3\x17\x9f\x89\x2f\x20\x2b\xa9\x80\xa2\x94\x40\x1f\x99\x90\x5f\x81\xa0\xd4\xdf\x78\xe7\x53\x2a\x93\x1e\x91\x4a\x12\xc3\xcf\x19\xcd\xa9\xa4\xb1\xc5\x40\xb5\x35\x0b\x60\xc5\xb4\x41\xdf\xf6\x51\xc8\xa1\x19\xc8\x8a\xe9\xd1\x24\x63\x33\x05\xec\xf2\x12\x5a\xc4\x53\xb0\x82\xa0\x53\xa8\xc2\xa5\xb7\x86\xb8\xb3\x0b\xae\x22\xd8\xee\x12\x5f\x1f\xc0\xef\xc8\x84\xe6\x34\x6b\xf8\x42\x07\x53\xe6\x54\x5a\x2e\x46\xce\x77\x74\x54\xcc\xfc\xb0\xa0\x85\x6b\x2d\x3d\xc6\x35\xc0\x34\xff\x8d\xf4\x79\x33\x47\xa2\xd6\x9d\x41\x47\x68\x88\x0e\xf3\xb0\x29\x9a\x37\x9c\x4d\x95\xc1\xd5\x2c\x03\x1e\x16\x6c\xba\x50\xa7\x49\xd0\xa2\x0b\x05\xa3\xd3\xcd\x68\x6b\xd1\x94\xdc\x68\xf4\xfd\x55\xe1\x71\x89\x35\x2b\x8f\xf6\xe5\x71\x87\x88\x0e\xfb\xd6\xf5\xd1\x52\x6a\x0f\xa9\x91\x59\xa7\xa2\x38\xa7\x53\xca\x56\x28\xa4\xa8\x5e\x62\x39\x6b\xad\x3b\x85\x5b\x4a\x1d\x18\x0f\x8a\x6a\xb0\x26\xa9\x41\xf8\xfa\x11\x11\x45\xde\xcc\xa8\x24\x2c\x17\x68\x31\xdb\x83\x85\x40\xac\xd9\x4b\x72\x26\xd7\xe9\x90\x30\x69\xad\x3d\x5e\xfe\x08\x8a\xfe\x9f\xc4\xf9\xdf\x28\x71\x5a\xc3\x46\x70\x92\x00\x3a\x3e\x68\x71\xac\x3b\xfa\xcd\xeb\x9b\x2b\x5c\x27\xe5\x27\xfb\xa3\x68\xda\x79\xc3\x31\x84\x2b\x1a\x03\xc1\xed\x14\x90\x15\x61\x39\x99\xe4\x54\xbb\x12\xf3\xd7\x37\x57\xd0\xe3\x20\x98\x83\xd5\x86\xec\xbc\x46\xd1\x48\x89\x11\x94\xca\x9e\x10\x78\x32\x5a\xf1\x19\xc5\xe8\x94\x6b\x73\x23\xe9\x9b\x08\xb7\x4b\x78\x1d\x05\x72\xc7\xdb\x77\xfd\x90\x90\x8f\xbb\x5a\x9f\xd2\x59\xc9\x69\x8c\xd8\xbe\x30\x71\xa6\xbb\xd2\x58\xa4\xc9\x08\x77\x6d\x67\x9e\x4b\x34\xa6\x68\x91\xc5\xad\xd7\x6e\x3d\x69\x9a\x26\x2a\xf8\xb1\xd9\xc0\x5d\xf9\x5d\xf9\x40\x79\xc3\x88\x48\x2a\xdc\x5c\x6b\x2e\x7e\x8e\x18\x61\x23\xe5\x1b\x74\x9d\x0e\x72\xef\x66\x63\x61\x3a\x96\x33\xde\xfa\x05\xb4\x57\xe7\xa2\x37\x31\xf2\xb5\xdb\x81\x2e\x66\x45\x2b\x25\x78\xa6\x82\xe8\x48\x06\xaf\x87\x31\x9c\x55\x87\xeb\xa2\xb3\x83\x71\x83\xb0\x47\x8b\x20\x69\x9a\xe2\x30\x24\xe1\xce\x19\x40\x69\xdc\xac\x7b\xd7\xab\x76\x76\x7b\xf7\xb6\x3b\x1f\x40\xab\x3d\x0f\xce\x9f\xc0\x93\xed\xa3\x35\xc0\x0e\xb1\xcd\x7b\xcf\xe4\x37\x8e\x98\x09\x65\xa0\x08\xf6\x50\x95\x65\xb3\xea\xe3\x17\x7c\x10\x63\x75\xf4\x62\x01\x67\xcd\x54\x49\x03\xfe\x80\x87\x8c\x0e\xd4\x4f\xeb\x22\xbf\x47\x2f\xaa\x6a\x39\x59\x7d\x04\x55\x8b\x51\xbc\xe5\x7b\x5f\x27\xba\xcc\xd5\x47\x7a\xcb\x86\xd0\xfa\x00\x1c\xa6\xf2\x78\x0c\x43\x67\x05\x18\xca\x48\xc7\x1a\x2a\x98\x9c\xea\x01\xa6\xc7\xd7\xb8\x4d\x2a\xa0\x84\xc9\x1f\xca\xa5\xd0\xf1\x26\x23\x57\xf7\x68\xe4\xdc\x62\x8c\xfa\x60\x50\x8b\x9f\x67\xe5\x92\xb0\x62\xa8\x73\x0a\x37\x9c\x2d\x09\x67\xf9\xda\xc6\xc1\xfc\xa0\x99\x16\xd3\x43\xeb\x88\xdf\xef\xf3\x08\xae\xe5\x35\xfd\xd0\xf0\xa4\xf2\xcf\xbd\xa7\x76\x84\x44\x79\xe4\x66\xcc\x31\x1e\xb9\xdb\xc9\x0f\x03\xdb\x74\x5d\x1c\xbd\x4d\x83\x12\xab\x73\x9f\xf4\x08\xdb\xa5\x6f\xa3\x0e\x6f\x81\x99\x42\x6d\xd8\xc0\xb6\x56\xf9\xfa\xa8\x7d\x1a\x5c\x48\xd7\x46\x75\x85\x4c\x86\x76\x4a\x54\xb8\x55\x76\xd4\x11\xe7\xc8\xdb\x2c\x51\x75\xed\xd6\xb7\x34\xc7\xf8\x7b\xa8\x19\xad\x53\xbb\x76\xcb\xa1\x65\x06\x36\xdf\x93\xbe\x78\x96\xec\x76\x40\x7c\x51\x9a\xde\x8f\x60\xd5\x18\x84\x4b\x67\xc9\xae\x5a\xb1\x1a\x95\xb6\xa6\x70\x4f\xd7\x6a\xbb\x33\x34\x79\x27\xa5\x5c\x20\x8d\xed\x2c\x26\xe1\x0b\xf1\x7d\x62\xbc\x13\xec\x9a\xe7\x90\xe3\x7e\x19\x28\xc4\xf8\x64\x2a\x2e\x7b\x45\x8a\xb2\x60\x53\x92\x7f\x4b\x49\x46\xf9\x2f\xe8\xda\xba\x2e\x38\x91\x28\x4d\xb4\x58\x1a\x4f\xd0\x82\x98\x4e\xa9\x0d\x92\x50\x26\x17\x94\x9b\x99\xb1\x1d\x49\x71\xe9\xd6\xfa\x3d\x93\x0b\x95\xb0\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\xb1\x07\xbb\xf8\x3e\x69\x20\x18\xa7\xc0\x6c\xdf\x54\x3e\x2a\x8d\x6c\x0d\xc3\xe1\x3f\x6a\x1f\x75\x48\xfa\x64\x63\xf3\x25\x7d\xf0\x46\xeb\xe9\x55\x7a\xc2\xc4\x98\x60\x42\xa6\xf7\xb8\x3d\x6b\x7b\x66\x74\x2c\x1f\xd7\x5a\x50\x95\x1a\x49\xe1\xb9\xc4\x7d\x34\x59\x01\xc3\xae\x6c\xc2\xd0\xa5\xb3\x5b\x60\x82\xde\xb2\x84\x8c\x91\x5c\x47\xc6\x73\x22\x29\x87\x29\xa6\xad\xd0\x47\xa7\x3e\x4c\xcd\xa0\x2d\xec\x62\x6c\xd6\x5a\x34\xd5\xf8\x5e\x95\x45\x31\x60\xb1\xea\x4e\xd6\x62\x8d\x7b\x4c\x56\xff\xc8\xa1\xa1\xb0\x1b\x94\x0d\xf6\x3d\x18\x3f\xc0\xda\x88\xb6\x60\x45\x78\x97\x44\xb1\xf6\xdc\xbe\x23\x1a\x06\x9b\x6e\xe3\xd1\x0d\xb9\xdc\x37\x1f\x0d\x31\x14\xd7\xe1\xfa\xad\xbf\xe9\xe1\xf4\x75\x9d\xe7\xd6\x11\x6a\xdc\xd1\x9b\xa7\xfe\xbb\xeb\xe2\x80\x61\xf9\x8c\x1e\x32\x2c\x0f\x48\x23\x1d\x67\x0b\x1a\x03\x1c\x1f\x13\xb7\xf8\x58\xb9\x91\x8a\xba\xc6\x0a\x75\x82\xca\x4a\x31\xdb\x55\x1c\xb4\xc2\xe1\xdc\xd8\xe1\x0e\x53\x3b\xf6\x02\xd3\x1c\x03\x24\x1e\x35\xf3\x06\x5b\x2b\x32\x51\x54\xe2\xca\xc1\x9c\x8b\x1f\x6f\x84\x0c\x68\xb7\x67\xf4\x18\xed\x36\xac\xaf\x8e\x35\x42\x8c\x26\xe9\xd1\x6e\xfa\x68\x9b\xb3\xf7\x8c\x9e\xa8\xdd\x70\x31\xaf\x15\x32\x47\xaa\x37\xec\xea\x4c\x11\x54\xba\x27\x29\xb8\x2a\x5f\x77\x69\x38\x7f\xdb\x7e\xbc\x51\xd2\x6f\x3b\x5e\x17\x47\xd8\x8e\x87\x37\xc4\x33\x21\x07\x76\x78\xd0\x76\x6c\xed\xda\xd0\x3a\xba\x4d\x12\xb3\xc4\xe3\xb6\xec\xd4\x6c\xce\xb0\xed\x68\xb0\x50\x3a\x55\xdc\x95\xbe\x39\xa2\x4f\x4a\x97\x3c\x37\xf3\xe0\x39\xd1\x8c\x3a\x00\x25\xbe\xa7\x6b\x01\x6f\xdf\xd9\x18\xdf\x01\x78\x47\x65\xc3\x96\x19\x9c\x1d\x32\x85\x94\x2a\xa8\x08\xe3\xcd\xe4\x61\x60\x23\x7e\xf7\x8d\x81\xa4\xd0\xdb\x98\xf0\xd7\xca\x46\xfb\xa6\xf2\x31\x55\x34\x89\xef\x93\xd4\x44\x36\x93\xaf\xc0\x46\xfd\x02\x0d\xd8\x05\x3c\xd4\xa3\x36\x47\x5c\x7c\x0b\x85\x28\xc2\x54\x6d\x2d\xdb\xeb\x6c\x99\x61\xdc\xcc\x2e\xe0\xe7\x25\x2b\xe2\xb3\x65\x36\x6a\x5e\xdd\xe0\x98\x58\x8d\xc4\xa8\x49\x62\xc1\x19\xca\xa0\x6d\x62\x82\x66\x7a\x27\x8f\x0d\x89\x7d\x7b\x77\x77\x63\xbc\x05\xfb\xee\xf0\x9f\x71\x18\xaa\x1c\xbd\xa6\x72\xa1\xd8\x0b\x2e\x21\x22\x55\x95\xb3\xa9\xaa\x4a\x51\x85\x7e\x5f\xc1\x74\x41\xb8\xa0\xf2\xb2\x96\xb3\xf3\x9f\x45\x2e\x92\x86\xb3\x1a\x77\xd6\xa4\xe2\x91\xb1\x16\xe6\x8d\x3a\xb3\x87\x23\x6c\x08\xac\x2c\xa0\xe2\x34\xa3\x33\x56\xd0\x4c\x15\x54\x08\x73\xe6\x76\xa6\x39\x18\x57\x6b\xd7\xf3\xb4\xe3\x6a\x7e\xa5\x87\xb5\x48\xd8\x0c\x52\x05\x5f\x19\xef\x9e\xdc\xda\x89\xed\x20\xef\xbc\x7d\xd7\x0f\x5d\xed\x7f\x57\xb3\x09\xb6\xe9\x39\xd0\x3a\x15\xad\x58\x5b\xf7\xa0\x6b\x94\xe4\x5a\xdc\xf0\x98\x7a\x0f\xfd\x43\x9e\xcc\x24\xe5\xf1\x6e\x8b\xbc\x6a\xb6\x36\xf6\xb6\x39\x51\x80\xf6\x57\x79\x54\xa4\xcf\x84\x7c\x54\x54\x6f\x89\x84\x59\xd6\x8f\x68\x3d\xbd\x2e\x6b\xc4\x21\x09\x3d\x8b\xc2\xa4\x2c\x2e\x2e\x7b\xc9\xec\xba\x4e\xb0\x4c\xa4\x98\x23\x40\x33\x2c\x7d\xaa\x5f\x99\x30\xf6\xd2\x8e\x8b\xd1\xe8\x32\xdd\xb1\xa0\x77\x02\x7f\x0d\x77\xe5\x1b\x2c\x58\xdc\x6e\xa3\x24\xbd\x21\x72\xd1\xea\x83\x2f\xee\xe8\xb2\x42\xab\x58\xf5\xb0\xec\xd4\x53\xfe\xa5\x02\x88\xed\x08\xa2\xc1\x68\xcf\xc0\x71\xd6\x1c\x2e\xcf\x9b\x52\xa5\x54\x9c\x7a\xd0\x1d\xf5\x8e\x62\xc7\x6f\x74\x66\xcc\xaa\x61\xdd\xdc\x15\x4c\x0c\x54\xb2\xa0\x09\xb2\xf9\x3f\x8d\xd0\x58\x1a\xa3\xca\x67\x1a\x9d\x82\x53\x7e\x83\x36\x0b\x6c\x32\xcd\xce\xf8\x3d\xb6\xf3\x11\xfa\x1e\x19\x9d\x91\x3a\x97\xa8\xed\x34\x83\xe0\x89\x54\xa1\xc6\x72\x06\xbb\xb2\x60\x04\x04\x26\x65\xa6\xdc\x3f\x94\x0d\x3a\xf5\x85\x4e\x60\xa4\xe6\x89\x9c\xdf\xb8\x42\x29\x8b\xa0\xd4\xfb\x54\x61\x17\x27\xda\x3b\x21\x20\x54\xaa\x1b\x90\x1e\x08\xea\xcf\xbf\xfc\x32\x85\xe7\x26\x19\x86\x3d\xfd\x18\xa9\x3e\x37\x94\xab\x4a\x6a\xec\x51\xf1\x72\xc5\xd0\xb1\x5d\xa8\x16\xac\x12\xc8\x73\xcc\xbd\x2b\x6c\x75\x0e\x12\xfb\x35\x36\x99\x0f\x1a\xa1\x78\xd0\x71\x15\xe9\x0b\xc2\xc5\x82\xa8\x0a\x30\x8b\xff\x52\xbf\xc2\xf4\xbd\xa8\xa7\x53\x4a\x33\xa1\x3d\xa9\x9f\xdf\xbe\x7a\x69\x0a\xb2\x33\x5b\x3d\x6d\x5d\x31\xb5\x56\x87\x0e\xe6\x43\xfb\x97\xa5\xb3\xfd\x58\x0f\xcf\x47\xd6\xc1\x73\x2b\x6b\x1a\x5b\xd0\x80\x15\x42\x52\x92\x59\x9a\x69\x21\xe9\x4b\x88\x2e\x43\xc4\x15\x8e\x8c\xe0\x41\xd7\xbb\xb5\xd9\x40\xd9\x8c\xb8\xab\x23\x78\x8f\xc7\xcf\x27\x89\x16\x3f\x98\x72\xac\x28\xdf\xa8\x5d\xbc\xc0\xb5\xd8\x0d\x45\x4b\x84\xcd\x2c\xb5\x90\x80\x5a\xd1\x62\x97\xb8\x4d\xdb\x46\xcf\xb2\x19\x60\xd3\x53\x35\xa5\x19\x7a\xad\x63\xa6\x0e\x90\x1d\x87\xe4\x8e\x93\xaf\xec\x0c\xd8\xed\xd2\xd3\xb9\x88\x36\x5c\x3a\x70\xd6\xdd\x0f\x1e\x52\xcd\x36\x71\x92\xde\x52\x19\x47\x46\x10\x9e\xdf\xad\x2b\x1a\x8d\x7c\x95\xa7\x17\xb0\xb0\x4c\xe6\xe3\xdf\x16\x0f\x96\x0f\x9b\x75\x58\xfe\xbb\xb8\x74\xe3\x4d\x2f\x81\x2e\x98\xb2\x4a\x3c\x93\xc4\x76\xc7\xa1\x3e\x82\xcf\x68\x1e\xdf\xdb\xa4\xa0\x0d\xf5\xe0\xf1\x11\x3d\x63\x8d\xb5\xe3\x85\x83\x4c\x77\x05\xd9\x07\xfd\x24\xcb\xe2\x1d\xeb\x05\xff\xa7\xce\x1d\x62\x8d\xcc\xa0\x79\xed\x39\xda\xa5\x05\xc9\x3d\x0d\xa4\x08\x23\xa6\x03\x24\xf1\x78\xb8\xa1\x8a\x02\x7e\x09\x62\x6a\x20\x63\xb3\xf1\x48\x1f\x52\xc5\x71\x06\x3d\xec\x98\xb8\x97\x31\x6e\x65\x82\xc2\xac\x61\x6a\xed\x28\xf1\x78\x52\xcf\xe0\xed\x3b\xac\xe8\x4d\xcc\x41\xda\x84\xca\x10\x7c\x00\x9f\x3f\x5d\x00\xdd\x32\xf1\x9b\xc2\xb0\x0d\x42\x18\xc1\xe7\x0f\xc9\x57\xbb\x01\x76\x6d\x02\x09\xf6\x5b\x0a\x97\xf0\xb3\xff\xff\x97\x7f\xa1\xf9\x33\xa7\x05\x8e\x49\xe0\xaf\x74\x1b\x76\x0d\x10\x8d\x4b\x98\xd4\xb3\xb7\x17\xf8\xf2\x9d\xd9\x32\x23\x88\xb1\x3c\x45\xd1\x6d\x16\x47\x56\xf4\x00\x2e\x4a\xe5\x89\x2f\x30\x36\x86\x69\xe2\x0a\x6d\x29\x28\xca\xe2\x1c\x99\xd6\x79\x09\xd8\x31\x1a\x21\x70\x93\x03\x36\x50\x4d\x85\xf1\x4b\xfa\x10\x3f\xe8\x43\xa7\x68\xa4\x04\xb4\xbf\x76\x5b\x95\xb0\x09\x03\xd5\x0b\x9f\x51\x78\xfd\x1a\x67\xb9\x30\xd2\xf9\xd7\x46\x57\x20\x63\x9b\x5e\x44\x32\x31\x63\x78\x11\x65\x41\x9d\xa8\x55\x52\xda\xdb\xdc\xc6\x87\x11\xc0\xd4\x9d\x11\x7b\x71\xe6\x98\xc2\xf0\x54\x67\xae\xbc\x49\x1d\xaa\x0a\x2d\xbc\xec\x60\xa7\xc2\x99\x42\x77\xb0\x00\xfc\x62\x01\x67\xef\x5b\x1e\x89\x17\x0d\xd0\xc4\x13\xa8\x71\x02\xed\x02\xbc\x45\xda\xcc\xd0\x33\xda\x9d\x5b\x63\x27\xaa\xc7\x16\x08\x83\x54\xd8\x0a\xce\xef\x86\x2f\x0e\x1a\x3c\x5e\xc0\xeb\x80\xc5\xe3\x22\x1e\x83\xa6\xc5\xae\x07\xad\xb0\xef\xce\xbe\xa8\x24\xad\xbe\x3a\x84\x63\x50\xb2\x9e\x1b\x45\xe6\x3b\xc7\x76\x9e\x1b\xc2\x69\x21\x8d\xc3\xe9\xf8\x54\x95\xb5\xa1\xae\x43\xac\xec\x5b\x05\x19\x39\xf8\x50\x70\x3f\xf0\xe2\x1f\x83\xcb\xea\x74\xa8\xe1\xcc\x68\x2f\xd5\xa5\xdf\x99\x0e\x32\x3a\xa3\x1c\x78\x8a\x2a\x21\xbd\xc2\x28\x28\x0a\x20\x25\x31\xd0\xd1\x6e\x7c\xeb\x9d\xb5\x1a\xc8\xa8\x16\xd0\xc2\xc2\x03\xef\xb2\x79\xe6\x36\xc0\x6b\x4a\xb2\x27\x79\x1e\x6b\xe0\xc7\x55\x4c\xda\x2b\x02\x33\xd4\xa6\x23\x88\x8c\x24\xe0\xa8\xc9\xad\x35\x85\x2b\xb3\xe4\x8c\xac\x32\x68\x0b\xa2\x2f\xd5\xda\x82\xda\x0a\x35\xf4\xbb\x2e\x2e\xc1\x5d\x89\x69\xc4\x9d\x31\x22\x55\xf7\xe0\x49\x9e\x97\x0f\x37\x84\x4b\x46\x72\x0c\xd9\x49\x5e\x1b\x8b\xf3\x19\x13\x53\xc2\xb3\x37\x85\xba\xbe\x74\xd1\xb4\xd8\xb2\x11\x5c\xfa\x25\xf8\x13\xee\x89\x54\x4c\x5c\xee\x09\xd5\x6e\xb1\xda\x2f\x58\x3b\x45\xab\x41\xa3\x45\x4c\x77\x60\x37\x1d\x64\x35\xd4\xfb\x28\x99\xab\x09\x12\x78\x0a\xf1\x29\xc9\x0c\x3b\x98\x36\x44\xa0\x41\xcb\x85\x02\xd0\x5d\xbd\x21\x9c\x2c\x85\xf5\x85\x7e\x45\xb8\x88\x79\x62\x2a\x75\x9a\x76\x0c\x1c\x7c\xa8\x29\x5f\x37\xdd\x79\xfa\xe6\xf5\x77\xe9\x2f\xf1\x65\x6c\x07\x78\x5d\x42\xdf\x41\xd2\x55\xb2\x17\x97\x0d\xd7\xaa\xdb\x1c\xc6\x3b\x52\x75\x36\x85\xed\x96\x7e\x57\x6a\xab\x1d\x22\xb5\x48\xdd\x07\x83\xb8\x0a\x4a\xfa\x0d\x2d\xd4\xa4\x6e\x37\xd1\x75\x6a\x45\x8c\xdd\xaf\x61\x14\x5e\x15\xb4\x9c\xed\xe1\x41\x3f\xec\xe3\xa1\x96\xf5\x63\x10\x71\xc7\xea\x73\x4e\x3f\x34\xd9\x70\xe3\x11\xa9\x30\xb5\xed\xda\x84\x1d\x3b\xbc\xad\x4e\x89\xd9\x97\x07\xd5\xf2\x51\x58\xd7\xc3\xe9\x75\x22\x94\xfc\xdc\x75\x35\xb4\xe3\xc5\x4f\xc8\x71\x76\x20\xd8\x25\xfb\x3a\x0d\xf7\xbe\xb4\xa7\x33\x91\xfa\x04\xc5\x8b\x3d\x31\xb1\x2b\x24\x9c\x2c\x78\x23\xe8\x0d\x0a\x18\x94\x97\xc2\x17\x1f\x6f\x04\xbd\x2e\xea\xe5\xcb\x7a\x39\xa1\x5c\x5c\x34\x0d\xd7\x4b\x26\xdf\x14\x55\x59\xd5\xe8\x6f\x67\x4e\xac\x6c\xc3\x96\x3c\x6d\x70\xb3\xe8\xb8\xba\xf7\x34\x56\xa8\xa6\x2f\xa8\x10\x64\x4e\x93\xa1\xca\x08\xcb\x06\xef\x47\x46\x5a\x39\x73\x52\x59\x52\x5e\x2f\x3f\x4d\xeb\x8a\x23\x85\x31\x06\xba\x02\x34\xdd\x41\xca\x3d\x2d\xd4\x97\xaf\x6d\xac\x73\xee\x99\x13\x83\x19\x5a\x04\xbc\x9f\x9d\x5d\x10\x01\x0b\x92\x85\x2a\xa9\xda\x97\x8f\x55\x59\xc0\x0c\x6b\x40\x19\x86\x9c\x1b\xfe\xf6\xef\x11\xcb\x05\xd5\x50\xb4\x21\x25\x52\xab\xf4\x5d\x1a\x18\x99\x19\x43\xb9\x2e\x66\x69\xd1\x31\x1e\x2e\xa2\x2d\x4a\x0d\xa4\x9d\xf4\x1d\x4c\xf7\x0e\x26\x71\xef\x47\x8e\x42\xe9\x37\x54\xc6\xf7\xb8\xe1\xc3\x79\xdf\x1d\xfc\xe3\xfb\xa4\x0b\x06\xca\x67\x24\x77\x5d\xd0\xe6\xbe\xd6\x74\x81\xb2\x2c\x55\x2d\x24\x17\x25\x6e\x81\x39\xc3\x4a\xda\x43\xcd\xf3\x70\x78\xf6\xc8\x74\x3d\xc7\x5b\xcd\x23\x23\xc4\x6f\x88\x5c\x24\x87\x06\xba\x5d\xc1\x2a\x7f\xe4\x39\x14\x22\x51\xf2\xd1\xe9\x69\x04\x61\x32\x32\xf6\xdd\x09\xe9\x69\x6f\x74\x13\xbf\xed\xc8\x4e\x17\x80\x3d\x8d\xf4\x82\x9c\xad\xd0\x6a\x25\xd2\x50\x6d\x59\x4a\x15\xbc\xc0\xd8\x04\x29\xf0\x52\xd8\xf7\x58\xe1\x5f\xe9\xeb\x67\xfa\x1d\xca\xc9\x69\xb9\xa4\xfa\x56\x44\x33\x49\xc6\xc4\x14\x2f\xf5\xaf\x41\xac\x85\xa4\xcb\x11\x08\x55\x6c\x9e\xb3\x7b\x9a\xaf\x2d\xd3\x21\x1b\x41\xb4\x28\x85\xbc\x40\x8e\x8e\x8c\x00\x6d\xad\x20\x76\x53\xd9\x7a\xe5\xde\xb0\xf0\xe9\xc9\x6b\x36\x83\x4f\x2c\xcb\x5d\x99\x6f\x01\xb8\x09\x47\x10\x5d\x8c\xc7\x91\x8a\xa2\x04\x0e\x8b\x4b\x88\xf0\xa8\x62\x0b\xfc\x3f\x47\x07\xe4\xc9\xa0\x76\x32\xb0\xe6\x79\x7a\x83\xb6\x89\x03\x76\x74\x11\x18\x9a\x16\x75\x68\x2e\x05\xa3\x5f\xd9\xe1\x6f\x98\xd4\xad\xbe\x3d\x11\xbd\x2c\xf5\x36\x7a\x91\x73\x5d\xbd\xaf\xc8\xa1\xe3\x4c\x08\xe8\xa1\xe4\xf7\x23\xd0\xd1\x78\x30\x7a\x1e\xdd\x3e\xbc\xde\xc7\xb5\xb5\xa9\x5b\x19\x12\x30\x6a\x22\xc2\xca\x58\x38\xde\x13\x0a\x36\x1b\xbc\x2c\xbc\xeb\xfa\x18\xa4\xb1\x55\x05\x17\xad\xa9\x81\xe2\x94\x15\x19\x7d\xdc\x1f\xf1\xa5\x1d\x63\xea\x04\x76\x7d\x8a\xa1\x32\x01\x34\x35\xd4\xdf\xc1\xc0\xb8\x8e\x8b\xc2\x5e\xad\x80\x29\x03\xe8\x8d\x48\x1b\xfb\x31\x98\x96\xd5\xfa\xcd\xeb\xef\xe2\x7a\x04\x7e\xff\xa7\x44\x50\x14\x1e\x18\x99\xb6\x5d\x1b\xdb\x60\x1f\xab\xb6\x55\xda\x0e\x3f\x1b\xca\x74\x54\x14\xec\x95\x0b\x04\xbb\x15\x03\xd6\xb2\x6d\x76\xb3\xf5\xbb\xf9\xe9\x84\x55\x67\x11\xc1\xe0\xbe\xc3\xf9\x9f\x6a\xe7\xfb\x62\xf4\xa6\x48\x61\x97\x88\xb6\xd9\x54\x5b\x0c\xae\xd7\x2b\x5e\x50\x72\xc7\xee\xe3\x84\x08\x0a\x67\x78\x86\xdf\xbc\xfe\x6e\xa4\xf2\x56\x46\x31\x25\xee\x35\x9e\xdf\x02\xad\x82\x8b\x4b\x38\xc3\x01\xfa\x51\xe5\x28\x8c\x73\xe0\xc8\xf9\x39\xb6\x98\xf0\xc2\x95\x7c\xb4\x59\xd7\x5b\xb4\x6e\xa7\xaa\x7a\xbe\xe6\x26\x50\x83\xec\x68\x0f\xae\x2c\xa1\xaa\xf3\x5c\xbd\x37\x5a\x8e\x66\x58\x01\x26\xa0\xac\x51\x71\x5b\xe3\xd5\x28\x25\x15\xdc\x31\x4a\x6f\x69\x0d\x58\xdf\xfd\x44\x4b\xc1\x04\x3b\x52\x80\x97\xa5\x34\xb7\x81\x11\x24\xc2\x52\x92\x62\x41\x56\x14\xec\x57\x3e\x86\x0d\x12\x35\xcf\x44\x25\xc2\xcc\x85\x38\x75\xe3\x07\xe5\xbe\x45\x0d\xef\x56\x9b\xd4\x01\xb1\x15\x4f\xca\xf2\xc0\x55\xad\x5d\x0c\xdc\x65\x0d\xfd\xeb\x7a\x94\x3b\x75\x6b\xb2\xd6\x6d\xda\xe9\x4c\xb5\x77\x1d\xa5\x5f\x1b\xf8\xf1\x9e\x8e\x4e\x26\x99\x37\x70\x9d\xf3\x08\xdb\xf0\x27\xcb\x55\x3b\x7b\x07\x03\xdc\xbb\x41\x5e\xbb\x0c\x9d\x52\x4e\x90\xab\x90\xd6\x28\x51\xfa\x2a\x6f\x0e\x0a\xec\xdd\x80\x54\xa7\xb0\x19\x8c\x47\xed\x7a\x57\x26\x18\xa5\x6d\xb1\xdd\x80\x94\x8d\xd1\x98\x69\xec\x68\x1d\x9c\x69\x3c\x9f\xdd\x80\x94\x79\x8d\x6e\xaf\x36\xf2\x4c\x02\xc6\xb5\xa0\x39\x4d\x54\x30\xe0\xcf\xbe\xfc\xd2\xcf\x44\x8d\xe0\xc1\xa4\x5b\x54\xb8\xb3\xe2\x14\x4d\x1c\xa2\xce\x03\x29\x14\x2c\x65\x12\x28\x46\x25\x52\xe2\xf7\x1a\xf0\xfc\xe8\x55\xf8\xe7\xcf\x84\xaf\x61\xa9\x1d\x98\x06\x47\x8b\xc4\xc1\x80\x99\xad\x3c\xe9\x08\x98\x75\x92\x7d\x38\x5e\xa6\x27\x3d\x3d\x60\x76\x4a\xfc\xeb\x12\xbb\xa4\xd7\xaf\xbe\xee\x0d\x81\x61\x0c\xbb\x89\x8c\x23\x63\x28\x12\x00\xd2\x71\xed\xc7\xbc\x76\xcc\x9f\x2e\x58\x18\x4e\xeb\x88\xa6\x39\xa0\x06\x9c\x86\xc7\xbd\x4c\x04\x7c\xd2\x4a\x7b\xbc\xfa\xc5\xe0\x14\xb3\x78\x37\x0f\x91\x8c\x20\xf2\x78\xe6\x02\xbe\xf8\x2c\xfb\x22\x1a\xb5\xe6\x70\x73\xa3\x39\x82\x0b\x3e\xc4\xcd\xe1\xc9\x51\xbd\xde\xa0\x5e\x5f\x4c\x6f\x1b\x1e\x1f\xd1\x13\x55\xf2\xd5\xe1\x4d\xf0\x89\x62\x17\x6c\x3a\x7d\xde\x14\x49\x07\xed\xa8\x8c\x2f\x80\xae\x8b\x13\x05\x90\xeb\xe9\x19\x06\x7b\x26\xc1\xb9\x11\x55\x47\x98\x50\x83\x91\x20\x17\x3b\x0f\x9d\xaf\x6b\x82\x41\x40\x8e\x0f\x97\xab\x2f\x57\xe0\xc9\x5f\x11\xce\xca\x5a\x00\xaa\x13\xb4\xc2\x50\x2f\x07\xe3\xf1\xbe\xf2\x8d\xd1\x8e\x18\x81\x0a\x97\xe9\x74\x39\x1e\x92\xc4\x8a\x82\x23\x96\x35\x2c\x0b\x54\x97\x9e\xea\x34\x17\x38\xc2\xcf\x4f\xad\x48\x8e\x7b\x11\x45\x26\x2e\xa9\x5f\x0d\x7f\x79\x60\x87\x18\x66\x36\xcd\xe4\x36\xbe\xc9\xe9\x87\x30\xdc\x51\x5f\xbd\x8e\xf1\x6e\xbf\x7e\xcf\x5b\xc7\x24\x6e\x95\xcc\xc6\xeb\xf9\x72\x81\x61\x5f\xb2\xa4\x12\x93\x36\x78\x87\x5c\x2e\x10\x6d\xeb\xc7\xa9\xf2\x2c\x9b\x52\xda\xb9\x7f\x2a\xa8\x0a\x0e\xb5\x22\x9d\x38\xcb\xad\x7e\xef\x42\x9d\xb6\xe3\x76\xf7\x16\x2a\x9a\x8c\xd1\x58\xe1\xdf\xe5\xed\x21\x2e\xc3\xa9\x83\x5d\x19\x84\x72\xae\xac\xf3\xac\xf8\x42\x36\xa7\x57\xaf\xf2\xb3\x0f\x91\x36\x3e\xad\x04\xd5\x54\x79\x4d\x1e\x8c\x91\x59\xdb\xdf\xae\xcd\x35\xe0\x8f\x1d\xca\x29\xc6\x6b\x93\xce\x4b\x46\xef\xc4\xab\x51\xc0\xc9\x65\x65\x92\xb3\x66\x83\xe5\xb2\x6a\x93\xb3\x2f\x72\x0d\x96\x8e\xe7\x70\x5c\xd0\x98\xcd\xd4\x81\x30\xdd\x5e\xd3\x8a\x62\x84\xd1\x0e\x7b\x2e\x9e\x12\x4f\xa2\x36\x90\x63\xeb\xb3\xdb\x9e\xdf\x94\xd8\x0b\x22\xbb\xfd\x51\x62\x47\xe8\xa5\xbe\x8d\x5c\x80\xfa\x97\x2e\x1a\x6f\x4a\xbc\xdf\x69\x16\x4e\x5d\x8f\x2b\xb2\xa4\xa6\x26\xbc\x99\x95\xe6\xc2\x3d\xef\xa7\xeb\xfb\xc6\xdb\x6c\x88\x41\x43\xa5\xef\x07\x50\x19\x79\x1f\xbd\x8a\x57\x18\xf1\x6a\xb2\x26\x2d\x6e\x44\x9c\x10\x23\x24\x46\xc9\x21\x46\x7d\xb9\x47\xb4\x64\x97\xae\x16\x7f\x45\x77\xd3\x76\x2b\x09\xbf\x7e\xac\xf8\x76\xcb\x66\xfd\xcb\xb0\x0c\x0d\x8d\x67\x15\x04\x81\x5c\x9a\xbb\x71\x3b\x25\x26\x7d\x60\xcc\x7a\x3a\x0e\x49\xe7\x39\x31\xc7\x64\x46\x58\xae\x6b\x80\xec\x29\xe9\x83\x1f\xb5\x09\x66\x44\x9e\x95\x10\xb1\x5c\x56\x49\x78\xd2\x6e\x68\x08\xc9\x10\xd5\x60\xdb\xa2\x89\xde\x16\x4b\xa0\xcd\x66\x7c\xf6\x87\x7f\xfd\x9b\x1f\x7e\xff\xcf\x3f\xfc\xd3\xbf\xfd\xf0\xf7\xbf\xfb\xe3\x3f\xfe\xed\x7f\xfe\xfb\x7f\xfc\xe1\xf7\x7f\xf7\xc3\xbf\xfc\xee\x8f\xbf\xfb\x87\xb3\x31\x9c\x0f\xef\x89\x23\x58\xdf\x92\xe1\x93\x4b\x9f\x88\x1f\xc1\x66\x67\x7d\xa0\xf7\xd8\xcf\x5f\xd9\x47\x4c\x74\x68\x9e\x36\x19\x9b\x92\xc4\x9d\x27\xf3\xb0\xdd\xb6\x45\x52\x89\x79\xab\xbe\x4c\xd6\xbe\x5c\x52\xdd\xfb\xe5\x52\x03\xb6\x72\x7a\x43\x0f\x31\x36\x1b\xb4\xf6\xcd\x1d\xc1\x52\xb5\xb6\xcf\xa0\x79\xb7\x7b\x08\xd1\x8e\x5d\xe1\xf5\x1e\x5d\x8c\x63\xa8\x63\x3a\x7b\xe4\x51\xa5\xe3\x16\x88\xca\xce\x19\xed\xeb\x79\x8e\x03\x67\x71\x45\xf2\xb4\x51\xe7\x06\x8c\x21\xbc\x1d\xdb\x7d\x20\x3f\xe6\x48\xb6\xe0\xdb\xe3\xe8\x58\x68\xe8\x48\xee\xb1\x94\x01\x75\xe8\x54\x76\xb3\xe7\x4f\x4c\xdc\xa3\x51\xf3\xd8\x7d\x88\xf0\x7b\xb8\xfb\xdc\xbe\xf3\xd8\x7a\x32\x0f\x2a\x30\xdb\x98\x05\x0a\x11\xb8\x34\x35\x66\xc6\xe0\x8d\x95\x05\x65\x58\xbe\xf0\x4c\x39\x15\xce\x8c\xe6\x54\xea\xaf\x36\xfa\xa6\x02\x1a\xa6\x6d\x4b\x41\x96\xaf\xa9\xfc\x58\xe3\xf0\x18\x8b\xe1\xfc\x40\x96\xb9\x9d\xed\x1e\x9f\xc1\xab\x22\x5f\xab\x2f\x40\x21\xc2\xaa\xb7\x30\xd9\x2e\xb1\x40\x83\x0a\x26\x2e\x98\x84\x63\x31\x01\x81\x77\x21\x15\x65\x4b\xb9\xf0\xcb\x4b\xcb\x25\x93\x68\x6e\x64\xb5\xfa\x38\x0d\xba\xad\xac\xa0\x42\xc0\xd9\xd8\xcc\xa8\x96\xdf\x29\xb5\x0e\x18\x0d\x8d\x30\x6b\xed\x9f\x39\x2e\xbb\x1e\xe1\x8b\xc3\xfe\x60\xe3\x10\xf6\x26\x70\xfb\x33\xb8\xbd\x29\x5c\x75\x7a\xf0\x76\x86\xb3\x69\x1d\x86\x4e\x82\x1c\xfc\x8e\xd8\x90\x69\xab\x3d\x2c\xe5\xc1\x63\xd4\x05\x45\x13\x7c\xb6\x8a\x46\xa0\x28\xdb\x18\xb8\x4f\xb1\x83\x8b\x49\xb8\x2f\x74\xc6\x58\x22\x28\xb0\x18\xfd\x69\x3d\x9b\x51\x1e\x23\xae\x7e\x09\x35\xf8\x75\x04\xc6\x3d\x0d\xf6\x3f\x5b\x76\xf0\xa3\x25\xee\x2b\xa6\xc7\x26\xea\x5e\x3e\xb9\xbb\xfd\x98\x1b\x1a\xb6\xd2\x0c\xc7\x83\x0e\x6f\xba\x67\x73\x6b\x13\x71\x41\x44\x8b\x11\x08\xbe\xd2\xcf\xee\xab\x74\xc6\xa1\xdb\xff\x20\xde\xb1\x37\x2f\xbb\xee\x50\xde\xd6\x13\xc7\x00\x88\x03\x6a\xf2\x9a\xde\xd6\x13\x31\xe5\x6c\x42\xe3\x9d\x3b\x93\x46\x76\x7a\xb7\xa6\xd0\xc9\xeb\xea\x83\xd2\x9a\xaf\xfc\x2f\x76\x28\x20\xf4\x85\x98\xab\xc5\x26\x07\x39\xcb\x70\x08\xfa\x99\xdd\x88\x7b\x77\x12\x3d\x36\xd8\x6c\x5a\x1f\xb1\x20\xf7\xd4\xdb\xb0\x63\x3f\x13\x83\x43\x8e\xf8\x4c\x4c\x03\xf9\xe0\x75\x96\xd6\x27\x72\x53\x47\x60\x73\x49\x20\xf1\xf7\xba\xe7\xf3\x30\xc3\x10\x4c\x3d\xc2\xff\xbc\xaf\xc4\x34\xeb\x3a\x78\x3f\xd5\x30\xa9\xdb\xe3\x0b\x68\xaf\x19\x6f\x75\xb8\x65\x9f\xf4\x69\x18\xdc\x28\xaf\x87\xd1\x57\x23\x73\xbb\xfd\xba\xe8\xec\xe3\xa5\xdc\x9a\x1e\x3b\x05\x3e\xa7\x7e\x3b\xc6\xdb\x65\xef\x02\xc1\xe9\xdf\x8e\xf1\xe0\xb8\x6a\xe1\xc3\xc4\xf5\x96\x07\x00\x67\x6d\xea\x36\xa4\xdd\xfb\x14\x8c\x99\x69\x37\xcd\xd0\x37\x8f\x17\xe8\x46\x92\x6d\x36\x6d\xb2\x77\x27\x5c\x96\x62\x6e\x04\xe0\x0b\x31\xef\x8f\x6f\xef\x17\x7e\x76\x5d\xaa\x1c\x28\x1f\x5f\x8a\x79\xfa\x4c\xe9\xbd\xee\x82\xc7\xae\x0c\xbd\xe5\xe5\x9e\x1b\x9a\x86\x3c\x26\x08\xda\x54\xac\x75\xf0\xcb\x6e\x9c\x52\x2d\xf8\x88\x8a\x35\x8c\xa1\x41\x39\xf9\x0d\x56\x62\x98\x30\xa4\x70\xfb\x65\xbf\xc6\xf1\x82\x14\x6b\x9d\x7a\xc1\x84\x9c\xad\xcc\xd0\x1f\xf5\xab\x31\x64\x80\xf9\x0f\x44\x0f\x05\x60\x21\x18\x66\xdf\xcc\x9d\x21\x23\xd4\x7a\xf1\xee\x49\x92\xe1\xbc\xc6\xa2\x1f\x41\x31\x6d\x69\x30\x97\x1e\xe8\x8e\x4b\x5a\x3a\xb7\x78\x50\xcf\x8f\x4b\xf0\x27\x36\x13\xe1\x0c\x0d\xd8\xe4\x94\xe2\x1a\x5c\x91\x09\x55\xdb\x77\x27\x14\xd7\x78\xa3\x0f\x7c\xfb\x01\x97\xff\xdf\xfd\xed\x87\x06\xbb\x7d\x2b\xa2\x57\x01\xdd\xd4\x93\x9c\x89\x05\xe5\xa7\xd4\xce\x74\x7f\xf8\xe1\x58\xeb\xe3\x63\xbe\xfc\x60\x2b\x3a\x86\x86\x5d\xee\xf0\xd0\x4b\xfa\xe0\x56\xa7\x94\x84\xf7\x09\x88\x20\x38\xc2\xa0\x09\xbd\xba\x8d\xd6\x51\xf0\x8b\x35\x9e\xd1\x43\x3a\x63\xbf\x4a\x63\xb7\x48\xa3\x55\x12\xeb\x04\x8a\x3d\x19\x9d\x25\x19\x9d\x22\xd7\xb8\x52\x1e\x22\x3b\x25\x13\xa7\x7f\xd7\x01\x17\xd6\x97\x5d\xee\x13\xfb\x2e\xa9\xdc\x43\x95\x4e\xd9\x77\xdc\x77\x1d\xac\x5e\xf8\x93\x7d\xc1\xa1\x07\xe5\x23\x54\x15\xf4\xeb\x2a\xac\xa4\x3b\x42\x0d\x51\xce\xed\x7c\x7b\xea\x68\x3c\x86\x7d\x8d\x34\x1e\xc3\xd6\x83\x6e\x07\xa7\xaa\x9c\xde\x0e\xfe\xfc\xf3\xfd\xb6\x14\x53\x9a\xea\xeb\x91\xef\x99\xb9\x24\xf6\x3e\xea\x99\xc6\xa6\x79\xf7\x81\xd8\x5a\x5e\x8b\x48\x47\x6a\xb4\xf3\xbb\x14\xc7\x2a\xe5\xae\x9c\xe5\xb0\x56\xee\xfe\x8c\x93\xcf\xc3\x46\x37\x77\xab\x66\x93\x3e\x1b\xd0\xcc\xed\xdb\x37\xee\xbf\xbb\x63\x4a\x78\x4c\x84\x44\xb9\x0e\x3d\xca\x1a\xb7\xda\x4a\xfa\x17\x62\xbe\xab\xab\xcf\x15\xae\x3f\x8d\xc2\x3e\xd6\xc6\x3a\x94\x38\xb4\x24\xef\x55\xd0\x6e\x22\x75\x22\x1c\xb8\xc4\xdb\x86\xff\x1a\x00\xf3\xfa\xa3\xcd\x27\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27177, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x7f, 0xd5, 0xca, 0xf, 0x80, 0xfc, 0x9b, 0x88, 0xb5, 0xa8, 0x22, 0x2d, 0x6f, 0xa0, 0x69, 0xf, 0x40, 0xab, 0xbd, 0xdf, 0x41, 0xef, 0x77, 0x48, 0x54, 0x71, 0xb0, 0x25, 0xcd, 0xcc, 0xaa, 0x8}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27175, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x0, 0xd4, 0x1c, 0x80, 0xa, 0x77, 0x2f, 0xdd, 0x68, 0x7f, 0x75, 0xe4, 0x4e, 0xf7, 0xc4, 0x43, 0x77, 0xc4, 0x6a, 0x64, 0xf5, 0x4d, 0x6e, 0x3f, 0xee, 0x97, 0x60, 0x71, 0x8f, 0x33, 0x6c, 0xdd}}
 	return a, nil
 }
 
-- 
2.43.0


From 859af7b385beadbf268f2a560267398a67de3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 33/44] fix: compile the generated code of rpcs whose types
 other packages define

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  |  8 +-
 gengokit/template/template.go                 |  8 +-
 svcdef/svcdef.go                              | 83 +++++++++++++++++++
 3 files changed, 94 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 51b3e61..b53ce41 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -50,6 +50,9 @@ import (
 	{{- if eq .Config.Transport "all" "nats" }}
 	natstransport "github.com/go-kit/kit/transport/nats"
 	{{- end}}
+	{{- range $p := .Service.Imported}}
+	imported{{$p.Name}} "{{$p.Path}}"
+	{{- end}}
 )
 
 
@@ -70,7 +73,10 @@ var (
 	_ wrapperspb.StringValue
 	_ fieldmaskpb.FieldMask
 )
-
+{{range $p := .Service.Imported}}{{range $t := $p.Types}}
+// {{$t}} is a type of the rpcs which "{{$p.Path}}" defines.
+type {{$t}} = imported{{$p.Name}}.{{$t}}
+{{end}}{{end}}
 /************************************** Endpoints ******************************************/
 
 // In a server, it's useful for functions that need to operate on a per-endpoint
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 7817063..4939c8f 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.175kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.432kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.985kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xdb\x48\x76\xf8\x99\xfc\x14\x6f\x88\xf9\x43\xf6\x4f\x4d\xcd\x2f\x40\x82\x4d\x0f\x3a\x80\xdd\xee\x99\xf1\xee\xd8\xee\x75\xb7\x77\x0e\x86\xe1\x2d\x89\x25\xa9\xb6\x29\x92\xae\x2a\xaa\x5b\xab\xe8\x92\xcb\x06\x48\x80\x00\x39\xe5\x10\x2c\x72\xca\x35\xc8\x39\x9f\x67\x27\xd8\x6f\x11\xbc\xfa\xc7\xa2\x44\x52\x92\x67\x36\x08\x82\x18\xbb\xb6\xc8\xaa\x7a\xf5\xea\xd5\xab\xf7\xbf\x38\xe3\x31\x5c\x95\x19\x85\x39\x2d\x28\x27\x92\x66\x30\x59\xc3\x84\xf0\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x0e\xae\x9f\x3d\xbf\x4b\xc3\xf1\x18\x5e\x53\x5e\x17\x05\x2b\xe6\xba\x03\x3c\xb0\x3c\x87\x72\x45\xf9\x03\x67\x92\x82\x5c\x30\x01\x33\x96\x53\xd5\xf9\x57\x94\x0b\x56\x16\x17\xb0\xd9\xa4\xe6\xf7\x76\xeb\x35\xc0\x33\x22\xa9\xdf\x8a\xcf\xdb\x6d\x18\x56\x64\x7a\x4f\xe6\x14\x5b\x6e\xf4\xcf\x97\x64\xa9\x5a\xc6\x63\xb8\xb3\x73\xc0\xb4\x2c\x24\x61\x85\x80\x25\x95\x8b\x32\x13\x20\x4b\x58\x92\x7b\x0a\xac\xc8\xd8\x8a\x65\x35\xc9\x81\x16\x59\x55\xb2\x42\x0a\x98\xf1\x72\x09\x82\xf2\x15\x9b\x52\x31\x42\x34\x38\xfd\x50\x53\x21\x81\x14\x19\x70\x2a\xaa\xb2\x10\x14\xe4\xba\xa2\x0a\x12\x76\xc5\x15\x95\x82\x36\x50\x46\x40\x04\x3c\xd0\x3c\xc7\x7f\x69\x31\x2d\x33\xca\x05\x02\x40\x78\x19\x35\xcf\xb3\x92\x9b\x81\x0a\xda\x48\xbd\x20\x48\xa9\x19\x94\x35\x07\x51\x57\x55\xc9\x91\xd2\x92\x93\x42\xe0\x6f\xc4\x8c\x91\x9c\xfd\x96\x48\x56\x16\x08\x6d\x56\xf2\x25\x91\x22\x0d\x43\xb6\x54\x3d\xe2\x30\x88\x26\x6b\x49\x45\x14\x06\x11\xae\x9d\x3e\x4a\xfc\xa9\xd0\x60\xc5\x7c\xfc\x1b\x51\x16\xf8\x62\xb6\x54\xef\x59\xa9\xff\x1e\xb3\xb2\x96\x2c\xc7\x87\x82\xca\xf1\x42\xca\xca\xfe\xae\xb9\x7a\x2d\x24\x9f\x96\xc5\xca\xfc\x64\xc5\x5c\x44\x61\x18\x44\x73\x26\x17\xf5\x24\x9d\x96\xcb\xf1\xbc\x3c\xbf\x67\x72\x8c\xff\xb7\xb4\x88\xc2\x80\x14\xeb\x6a\x02\xd1\xbc\x2c\xe7\x39\x4d\xe7\x65\x4e\x8a\x79\x5a\xf2\xf9\xb8\xe2\xa5\x2c\x27\xf5\x6c\xac\xd6\x3f\xbe\x2f\xca\x87\x62\xac\x7a\x47\x61\x90\xd5\x5c\x2d\xf2\x84\xa1\xcd\x90\x28\x0c\xe8\xb2\x92\xa7\xcc\x6b\xfa\x47\x61\x30\x63\x34\xcf\x96\x44\xdc\x9f\x30\xda\x1b\x13\x85\x81\x90\xbc\x9e\xca\x13\x86\xdb\x01\x51\x18\x48\xb6\xa4\x42\x92\x65\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x9c\x54\x15\xe5\xe2\x04\x00\xcd\x90\xfd\x2d\xe5\x2c\xcf\xc9\x78\x59\x3f\x46\xed\x96\xea\x7e\x3e\xa6\x9c\x97\x5c\x71\xda\xc0\x44\x8e\xf3\xd4\x1b\xcb\x7e\x03\x03\xd4\x0f\x44\x64\xb3\x39\x07\x36\x03\xfa\x01\xd2\xab\xb2\x98\xb1\x79\x7a\xe7\x4e\x42\x44\xf2\x3c\x82\xa8\x20\x52\x44\xb0\xdd\xb6\x71\xc3\xb7\xe7\xac\x54\xff\xa6\x73\xe4\x70\x04\x45\x8b\x6c\xbb\x3d\x0a\xea\x9c\x57\x53\x0b\x75\x0f\x4f\xd5\xd8\xdb\x32\x5e\x52\x49\x32\x22\xc9\xee\xa4\x47\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\x34\xc4\xc6\x5f\x27\x4c\x81\xdd\x5b\x38\x26\x61\x18\xae\x08\x87\x38\x0c\xde\xc3\x25\xcc\x96\x32\xbd\xad\x38\x2b\xa4\x7e\x56\x02\x2c\xbd\x2a\x97\x15\xe1\x54\xbf\x32\xd2\x27\x7d\x22\x4b\xa6\xdf\xb4\x96\x99\xbe\xa4\x0f\xb7\x94\xaf\x28\xd7\x8d\x5a\x9a\xa5\x2f\xcb\xea\x2a\x2f\x45\xf3\x36\xbd\x2a\xab\xb5\x7e\xd0\xcc\x9b\x7e\xcf\x49\x15\x06\xe3\x31\x98\xfd\xb4\x6c\xa8\x65\x3c\x76\x55\x22\x29\x7d\x52\xa8\x71\x8d\x90\x49\x9f\x99\x9f\xf8\xda\x88\x8f\xf4\x1a\xff\xc5\x17\xf6\x48\xa7\xb7\xea\x07\xbe\xf2\x8e\x69\x7a\x67\x7f\x63\x43\x73\xfc\xb0\x37\x2b\xe6\xbf\x22\x79\xad\xd6\xed\xc9\x95\xf4\x6b\xfc\xfd\x82\x88\xfb\x30\x09\xc3\xf1\xd9\x51\x7f\xe0\xda\xea\x24\xb0\xaf\x0e\xff\x19\x2b\x0d\xfa\xbc\x00\x82\xfa\x66\x45\xf9\x08\x98\xfc\x42\x40\x2d\xe8\xac\xce\x95\x9a\x9a\xd5\xc5\x14\xa9\x20\x40\x2e\x88\x84\x82\xa2\x96\x2a\xa1\xac\x94\x6d\x00\x25\x8e\xad\x28\x3f\xb7\x6a\x00\x01\x4e\x88\x60\x22\x85\xaf\x4b\x0e\xf4\x91\x2c\xab\x9c\x8e\x60\x5d\xd6\xb0\x64\xf3\x85\x84\x8a\x08\x54\x91\x1e\xc2\xb2\x04\xe2\x26\xd2\xf3\x54\xbc\xcc\xea\x29\x15\x08\x8e\x14\x8a\x03\xd2\x6f\x49\x91\xe5\x88\xe3\x03\x93\x0b\xa0\x64\xba\x30\x9a\x1e\x62\x3b\x7b\x02\x0f\x8c\xd3\x0c\xea\x0a\x91\x24\x20\x2a\x3a\x65\x33\x36\x85\x8a\xc8\x45\x0a\xf1\x73\x89\x00\x99\x80\x8a\x97\x13\x32\xc9\xd7\x40\x60\xc9\x84\xd4\x56\x02\x64\x54\xb0\x79\x81\x43\x59\xb1\x2a\xef\x51\xdd\x53\x40\x66\x63\x53\xea\xac\x0a\x85\x22\x45\x38\xcd\x0a\x34\x0f\x00\x6b\x28\x99\x26\xe1\x78\xec\xa8\x3b\xcd\x19\x2d\x64\x9b\xba\xb2\x84\x69\x99\xe7\x74\x2a\x3d\x03\x25\x5f\xc3\xb4\x2c\x34\x38\x9a\x79\xe6\x0a\x2b\x70\x41\x08\x50\xb0\x62\x9e\x6b\xc3\x44\xd3\x8a\x21\x85\x97\x14\xf1\xf0\xf1\x65\x85\xa4\x7c\x46\xa6\xb4\x6f\x27\x10\x98\x9b\xac\xdb\x48\xaa\x71\xb2\xc6\x2a\x51\xc6\x02\x1e\xc0\x2b\xb3\x9e\x69\xb9\x9c\xb0\x42\xd1\x69\x69\x50\xf4\x36\x76\x64\x4c\x29\x59\xf3\x02\x98\x44\xba\x22\x82\x53\x92\xe7\x94\xa3\xc5\x44\x2c\xb2\x69\xa8\x96\xb3\x47\xd0\x4d\x18\xbc\x29\xdc\xfa\x68\xb6\xd9\xa4\x76\x84\x36\x01\x8d\x24\xd8\x6c\x38\x29\xe6\x14\x3e\x65\x70\x71\x09\xae\xcf\x0b\xbd\x65\x28\xc7\x36\x9b\x4f\x99\x19\x63\x67\x01\x00\xb7\xd4\xd4\xbe\x0c\x37\x1b\x2d\x5c\xb5\x75\x69\x5f\x8b\xc3\x53\x20\x03\x43\xec\x2d\x22\x01\x6f\xd2\x78\x2a\x1f\xc1\x58\x69\xa8\x1a\xf0\xdf\x11\x32\xcc\xd9\x66\xf3\x4d\x89\x88\xc1\xa7\x2c\x7d\xad\x4d\xd0\xbb\x75\x65\x17\x98\x40\xbc\xd3\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\x6c\xc2\xc0\xda\xad\xea\x1d\x22\x4a\xd3\x8e\x95\x23\x32\x38\x79\x12\x06\xa8\xac\x38\x87\x4f\x2e\xa1\x60\x39\x42\x08\xcc\x7e\x15\x2c\x57\x40\xc2\x60\x1b\xda\x77\x16\x7a\x7a\x10\xa7\x64\x84\xf0\xc2\xad\x23\x27\x12\xf3\x05\xb9\xf7\xc8\x13\x6e\x36\xea\x20\x7f\x2a\x29\x22\x9a\x6e\xb1\xf3\x39\xf8\x54\xfe\x54\xd2\x3e\x42\x23\xac\xae\x95\x09\x24\xba\xa4\x9d\x6c\x92\xec\x6f\x37\x6c\xdc\xe2\x70\xff\xba\x77\xc9\x3a\x06\xee\x44\x6d\xb6\x09\xc4\x96\x18\xfe\x6b\x45\x31\x6f\x3b\x02\x4e\x3f\xe0\x42\x0c\x84\x34\x3e\xb4\xdb\x61\x10\xac\xdc\xde\x09\x7f\xef\x10\x35\x85\x4a\x12\x06\x1d\xbb\xb6\xbf\x6d\xb8\x6f\xf6\xed\x4a\x6f\x47\x80\x6c\xdd\xe8\x66\x7f\x6f\x50\x39\x3e\xc9\xf3\xeb\xc7\x29\xad\xa4\xd2\x53\x42\x8b\x58\x47\x29\xa5\xa1\xd0\x65\x31\x67\xd3\x36\x08\x50\xdb\x48\x10\x8a\x67\x13\x38\x52\xbf\x60\x59\x96\xd3\x07\xc2\xb5\x17\xf8\x46\x58\xbf\x10\x9d\xa0\xaa\xca\xd7\x28\x62\x50\x6c\x4a\x04\xbe\x74\xbd\x95\xd7\x45\x57\x94\xaf\xdd\xb6\xe1\x79\x41\x09\x62\xdc\x36\x05\xef\x55\x85\x5a\x83\xe4\xf9\x7a\xe4\xfa\x09\x98\x92\x02\x26\x54\xe9\x1a\x9a\xe1\xb0\xc9\x1a\x0a\x24\xbb\x2c\xf1\x3d\x7d\x9c\xe6\x75\x46\x33\xed\x05\x4e\x28\xa2\x80\x6b\xae\x68\x96\xee\x51\x23\x6e\x70\x1a\x41\x74\x2b\x89\xac\x45\x34\x82\xe8\x86\x15\xf3\x28\x71\xe7\xfe\xcc\x11\x24\xe9\x1d\xef\x30\xf4\xa8\x32\x6a\xb0\x49\xd3\x54\x28\xb3\x40\x31\x0f\x2b\xcc\xeb\x8b\x4b\x58\x92\xea\xad\x6e\x7a\xa7\xc9\xbf\xd9\x22\x7b\xed\x1e\x98\x8e\xd3\x12\x04\x41\xe4\xb1\x51\x74\x01\x9b\xed\x28\x0c\x7c\x33\x72\x1b\x86\x01\xea\xfa\xf7\x88\x0a\x82\xd1\x20\x1d\x5a\x38\x13\x9b\xc1\xfb\x11\x94\xf7\xd8\x6c\x11\x7b\x4b\x1f\xdf\x7d\x05\x9f\x94\xf7\x88\x6d\x10\x54\xa4\x60\xd3\xb8\xb1\xf0\x66\x71\x74\x6d\x41\xd8\x75\xc3\x17\x9f\x89\x2f\x20\x2b\xa9\x80\xa2\x94\x40\x1f\x99\x90\x5f\x81\xa0\xd4\xdf\x78\xe7\x53\x2a\x93\x1e\x91\x4a\x12\xc3\xcf\x19\xcd\xa9\xa4\xb1\xc5\x40\xb5\x35\x0b\x60\xc5\xb4\x41\xdf\xf6\x51\xc8\xa1\x19\xc8\x8a\xe9\xd1\x24\x63\x33\x05\xec\xf2\x12\x5a\xc4\x53\xb0\x82\xa0\x53\xa8\xc2\xa5\xb7\x86\xb8\xb3\x0b\xae\x22\xd8\xee\x12\x5f\x1f\xc0\xef\xc8\x84\xe6\x34\x6b\xf8\x42\x07\x53\xe6\x54\x5a\x2e\x46\xce\x77\x74\x54\xcc\xfc\xb0\xa0\x85\x6b\x2d\x3d\xc6\x35\xc0\x34\xff\x8d\xf4\x79\x33\x47\xa2\xd6\x9d\x41\x47\x68\x88\x0e\xf3\xb0\x29\x9a\x37\x9c\x4d\x95\xc1\xd5\x2c\x03\x1e\x16\x6c\xba\x50\xa7\x49\xd0\xa2\x0b\x05\xa3\xd3\xcd\x68\x6b\xd1\x94\xdc\x68\xf4\xfd\x55\xe1\x71\x89\x35\x2b\x8f\xf6\xe5\x71\x87\x88\x0e\xfb\xd6\xf5\xd1\x52\x6a\x0f\xa9\x91\x59\xa7\xa2\x38\xa7\x53\xca\x56\x28\xa4\xa8\x5e\x62\x39\x6b\xad\x3b\x85\x5b\x4a\x1d\x18\x0f\x8a\x6a\xb0\x26\xa9\x41\xf8\xfa\x11\x11\x45\xde\xcc\xa8\x24\x2c\x17\x68\x31\xdb\x83\x85\x40\xac\xd9\x4b\x72\x26\xd7\xe9\x90\x30\x69\xad\x3d\x5e\xfe\x08\x8a\xfe\x9f\xc4\xf9\xdf\x28\x71\x5a\xc3\x46\x70\x92\x00\x3a\x3e\x68\x71\xac\x3b\xfa\xcd\xeb\x9b\x2b\x5c\x27\xe5\x27\xfb\xa3\x68\xda\x79\xc3\x31\x84\x2b\x1a\x03\xc1\xed\x14\x90\x15\x61\x39\x99\xe4\x54\xbb\x12\xf3\xd7\x37\x57\xd0\xe3\x20\x98\x83\xd5\x86\xec\xbc\x46\xd1\x48\x89\x11\x94\xca\x9e\x10\x78\x32\x5a\xf1\x19\xc5\xe8\x94\x6b\x73\x23\xe9\x9b\x08\xb7\x4b\x78\x1d\x05\x72\xc7\xdb\x77\xfd\x90\x90\x8f\xbb\x5a\x9f\xd2\x59\xc9\x69\x8c\xd8\xbe\x30\x71\xa6\xbb\xd2\x58\xa4\xc9\x08\x77\x6d\x67\x9e\x4b\x34\xa6\x68\x91\xc5\xad\xd7\x6e\x3d\x69\x9a\x26\x2a\xf8\xb1\xd9\xc0\x5d\xf9\x5d\xf9\x40\x79\xc3\x88\x48\x2a\xdc\x5c\x6b\x2e\x7e\x8e\x18\x61\x23\xe5\x1b\x74\x9d\x0e\x72\xef\x66\x63\x61\x3a\x96\x33\xde\xfa\x05\xb4\x57\xe7\xa2\x37\x31\xf2\xb5\xdb\x81\x2e\x66\x45\x2b\x25\x78\xa6\x82\xe8\x48\x06\xaf\x87\x31\x9c\x55\x87\xeb\xa2\xb3\x83\x71\x83\xb0\x47\x8b\x20\x69\x9a\xe2\x30\x24\xe1\xce\x19\x40\x69\xdc\xac\x7b\xd7\xab\x76\x76\x7b\xf7\xb6\x3b\x1f\x40\xab\x3d\x0f\xce\x9f\xc0\x93\xed\xa3\x35\xc0\x0e\xb1\xcd\x7b\xcf\xe4\x37\x8e\x98\x09\x65\xa0\x08\xf6\x50\x95\x65\xb3\xea\xe3\x17\x7c\x10\x63\x75\xf4\x62\x01\x67\xcd\x54\x49\x03\xfe\x80\x87\x8c\x0e\xd4\x4f\xeb\x22\xbf\x47\x2f\xaa\x6a\x39\x59\x7d\x04\x55\x8b\x51\xbc\xe5\x7b\x5f\x27\xba\xcc\xd5\x47\x7a\xcb\x86\xd0\xfa\x00\x1c\xa6\xf2\x78\x0c\x43\x67\x05\x18\xca\x48\xc7\x1a\x2a\x98\x9c\xea\x01\xa6\xc7\xd7\xb8\x4d\x2a\xa0\x84\xc9\x1f\xca\xa5\xd0\xf1\x26\x23\x57\xf7\x68\xe4\xdc\x62\x8c\xfa\x60\x50\x8b\x9f\x67\xe5\x92\xb0\x62\xa8\x73\x0a\x37\x9c\x2d\x09\x67\xf9\xda\xc6\xc1\xfc\xa0\x99\x16\xd3\x43\xeb\x88\xdf\xef\xf3\x08\xae\xe5\x35\xfd\xd0\xf0\xa4\xf2\xcf\xbd\xa7\x76\x84\x44\x79\xe4\x66\xcc\x31\x1e\xb9\xdb\xc9\x0f\x03\xdb\x74\x5d\x1c\xbd\x4d\x83\x12\xab\x73\x9f\xf4\x08\xdb\xa5\x6f\xa3\x0e\x6f\x81\x99\x42\x6d\xd8\xc0\xb6\x56\xf9\xfa\xa8\x7d\x1a\x5c\x48\xd7\x46\x75\x85\x4c\x86\x76\x4a\x54\xb8\x55\x76\xd4\x11\xe7\xc8\xdb\x2c\x51\x75\xed\xd6\xb7\x34\xc7\xf8\x7b\xa8\x19\xad\x53\xbb\x76\xcb\xa1\x65\x06\x36\xdf\x93\xbe\x78\x96\xec\x76\x40\x7c\x51\x9a\xde\x8f\x60\xd5\x18\x84\x4b\x67\xc9\xae\x5a\xb1\x1a\x95\xb6\xa6\x70\x4f\xd7\x6a\xbb\x33\x34\x79\x27\xa5\x5c\x20\x8d\xed\x2c\x26\xe1\x0b\xf1\x7d\x62\xbc\x13\xec\x9a\xe7\x90\xe3\x7e\x19\x28\xc4\xf8\x64\x2a\x2e\x7b\x45\x8a\xb2\x60\x53\x92\x7f\x4b\x49\x46\xf9\x2f\xe8\xda\xba\x2e\x38\x91\x28\x4d\xb4\x58\x1a\x4f\xd0\x82\x98\x4e\xa9\x0d\x92\x50\x26\x17\x94\x9b\x99\xb1\x1d\x49\x71\xe9\xd6\xfa\x3d\x93\x0b\x95\xb0\x40\x12\x8d\xd4\x5a\xdf\x7e\xf9\x2e\x39\xd8\xb1\x07\xbb\xf8\x3e\x69\x20\x18\xa7\xc0\x6c\xdf\x54\x3e\x2a\x8d\x6c\x0d\xc3\xe1\x3f\x6a\x1f\x75\x48\xfa\x64\x63\xf3\x25\x7d\xf0\x46\xeb\xe9\x55\x7a\xc2\xc4\x98\x60\x42\xa6\xf7\xb8\x3d\x6b\x7b\x66\x74\x2c\x1f\xd7\x5a\x50\x95\x1a\x49\xe1\xb9\xc4\x7d\x34\x59\x01\xc3\xae\x6c\xc2\xd0\xa5\xb3\x5b\x60\x82\xde\xb2\x84\x8c\x91\x5c\x47\xc6\x73\x22\x29\x87\x29\xa6\xad\xd0\x47\xa7\x3e\x4c\xcd\xa0\x2d\xec\x62\x6c\xd6\x5a\x34\xd5\xf8\x5e\x95\x45\x31\x60\xb1\xea\x4e\xd6\x62\x8d\x7b\x4c\x56\xff\xc8\xa1\xa1\xb0\x1b\x94\x0d\xf6\x3d\x18\x3f\xc0\xda\x88\xb6\x60\x45\x78\x97\x44\xb1\xf6\xdc\xbe\x23\x1a\x06\x9b\x6e\xe3\xd1\x0d\xb9\xdc\x37\x1f\x0d\x31\x14\xd7\xe1\xfa\xad\xbf\xe9\xe1\xf4\x75\x9d\xe7\xd6\x11\x6a\xdc\xd1\x9b\xa7\xfe\xbb\xeb\xe2\x80\x61\xf9\x8c\x1e\x32\x2c\x0f\x48\x23\x1d\x67\x0b\x1a\x03\x1c\x1f\x13\xb7\xf8\x58\xb9\x91\x8a\xba\xc6\x0a\x75\x82\xca\x4a\x31\xdb\x55\x1c\xb4\xc2\xe1\xdc\xd8\xe1\x0e\x53\x3b\xf6\x02\xd3\x1c\x03\x24\x1e\x35\xf3\x06\x5b\x2b\x32\x51\x54\xe2\xca\xc1\x9c\x8b\x1f\x6f\x84\x0c\x68\xb7\x67\xf4\x18\xed\x36\xac\xaf\x8e\x35\x42\x8c\x26\xe9\xd1\x6e\xfa\x68\x9b\xb3\xf7\x8c\x9e\xa8\xdd\x70\x31\xaf\x15\x32\x47\xaa\x37\xec\xea\x4c\x11\x54\xba\x27\x29\xb8\x2a\x5f\x77\x69\x38\x7f\xdb\x7e\xbc\x51\xd2\x6f\x3b\x5e\x17\x47\xd8\x8e\x87\x37\xc4\x33\x21\x07\x76\x78\xd0\x76\x6c\xed\xda\xd0\x3a\xba\x4d\x12\xb3\xc4\xe3\xb6\xec\xd4\x6c\xce\xb0\xed\x68\xb0\x50\x3a\x55\xdc\x95\xbe\x39\xa2\x4f\x4a\x97\x3c\x37\xf3\xe0\x39\xd1\x8c\x3a\x00\x25\xbe\xa7\x6b\x01\x6f\xdf\xd9\x18\xdf\x01\x78\x47\x65\xc3\x96\x19\x9c\x1d\x32\x85\x94\x2a\xa8\x08\xe3\xcd\xe4\x61\x60\x23\x7e\xf7\x8d\x81\xa4\xd0\xdb\x98\xf0\xd7\xca\x46\xfb\xa6\xf2\x31\x55\x34\x89\xef\x93\xd4\x44\x36\x93\xaf\xc0\x46\xfd\x02\x0d\xd8\x05\x3c\xd4\xa3\x36\x47\x5c\x7c\x0b\x85\x28\xc2\x54\x6d\x2d\xdb\xeb\x6c\x99\x61\xdc\xcc\x2e\xe0\xe7\x25\x2b\xe2\xb3\x65\x36\x6a\x5e\xdd\xe0\x98\x58\x8d\xc4\xa8\x49\x62\xc1\x19\xca\xa0\x6d\x62\x82\x66\x7a\x27\x8f\x0d\x89\x7d\x7b\x77\x77\x63\xbc\x05\xfb\xee\xf0\x9f\x71\x18\xaa\x1c\xbd\xa6\x72\xa1\xd8\x0b\x2e\x21\x22\x55\x95\xb3\xa9\xaa\x4a\x51\x85\x7e\x5f\xc1\x74\x41\xb8\xa0\xf2\xb2\x96\xb3\xf3\x9f\x45\x2e\x92\x86\xb3\x1a\x77\xd6\xa4\xe2\x91\xb1\x16\xe6\x8d\x3a\xb3\x87\x23\x6c\x08\xac\x2c\xa0\xe2\x34\xa3\x33\x56\xd0\x4c\x15\x54\x08\x73\xe6\x76\xa6\x39\x18\x57\x6b\xd7\xf3\xb4\xe3\x6a\x7e\xa5\x87\xb5\x48\xd8\x0c\x52\x05\x5f\x19\xef\x9e\xdc\xda\x89\xed\x20\xef\xbc\x7d\xd7\x0f\x5d\xed\x7f\x57\xb3\x09\xb6\xe9\x39\xd0\x3a\x15\xad\x58\x5b\xf7\xa0\x6b\x94\xe4\x5a\xdc\xf0\x98\x7a\x0f\xfd\x43\x9e\xcc\x24\xe5\xf1\x6e\x8b\xbc\x6a\xb6\x36\xf6\xb6\x39\x51\x80\xf6\x57\x79\x54\xa4\xcf\x84\x7c\x54\x54\x6f\x89\x84\x59\xd6\x8f\x68\x3d\xbd\x2e\x6b\xc4\x21\x09\x3d\x8b\xc2\xa4\x2c\x2e\x2e\x7b\xc9\xec\xba\x4e\xb0\x4c\xa4\x98\x23\x40\x33\x2c\x7d\xaa\x5f\x99\x30\xf6\xd2\x8e\x8b\xd1\xe8\x32\xdd\xb1\xa0\x77\x02\x7f\x0d\x77\xe5\x1b\x2c\x58\xdc\x6e\xa3\x24\xbd\x21\x72\xd1\xea\x83\x2f\xee\xe8\xb2\x42\xab\x58\xf5\xb0\xec\xd4\x53\xfe\xa5\x02\x88\xed\x08\xa2\xc1\x68\xcf\xc0\x71\xd6\x1c\x2e\xcf\x9b\x52\xa5\x54\x9c\x7a\xd0\x1d\xf5\x8e\x62\xc7\x6f\x74\x66\xcc\xaa\x61\xdd\xdc\x15\x4c\x0c\x54\xb2\xa0\x09\xb2\xf9\x3f\x8d\xd0\x58\x1a\xa3\xca\x67\x1a\x9d\x82\x53\x7e\x83\x36\x0b\x6c\x32\xcd\xce\xf8\x3d\xb6\xf3\x11\xfa\x1e\x19\x9d\x91\x3a\x97\xa8\xed\x34\x83\xe0\x89\x54\xa1\xc6\x72\x06\xbb\xb2\x60\x04\x04\x26\x65\xa6\xdc\x3f\x94\x0d\x3a\xf5\x85\x4e\x60\xa4\xe6\x89\x9c\xdf\xb8\x42\x29\x8b\xa0\xd4\xfb\x54\x61\x17\x27\xda\x3b\x21\x20\x54\xaa\x1b\x90\x1e\x08\xea\xcf\xbf\xfc\x32\x85\xe7\x26\x19\x86\x3d\xfd\x18\xa9\x3e\x37\x94\xab\x4a\x6a\xec\x51\xf1\x72\xc5\xd0\xb1\x5d\xa8\x16\xac\x12\xc8\x73\xcc\xbd\x2b\x6c\x75\x0e\x12\xfb\x35\x36\x99\x0f\x1a\xa1\x78\xd0\x71\x15\xe9\x0b\xc2\xc5\x82\xa8\x0a\x30\x8b\xff\x52\xbf\xc2\xf4\xbd\xa8\xa7\x53\x4a\x33\xa1\x3d\xa9\x9f\xdf\xbe\x7a\x69\x0a\xb2\x33\x5b\x3d\x6d\x5d\x31\xb5\x56\x87\x0e\xe6\x43\xfb\x97\xa5\xb3\xfd\x58\x0f\xcf\x47\xd6\xc1\x73\x2b\x6b\x1a\x5b\xd0\x80\x15\x42\x52\x92\x59\x9a\x69\x21\xe9\x4b\x88\x2e\x43\xc4\x15\x8e\x8c\xe0\x41\xd7\xbb\xb5\xd9\x40\xd9\x8c\xb8\xab\x23\x78\x8f\xc7\xcf\x27\x89\x16\x3f\x98\x72\xac\x28\xdf\xa8\x5d\xbc\xc0\xb5\xd8\x0d\x45\x4b\x84\xcd\x2c\xb5\x90\x80\x5a\xd1\x62\x97\xb8\x4d\xdb\x46\xcf\xb2\x19\x60\xd3\x53\x35\xa5\x19\x7a\xad\x63\xa6\x0e\x90\x1d\x87\xe4\x8e\x93\xaf\xec\x0c\xd8\xed\xd2\xd3\xb9\x88\x36\x5c\x3a\x70\xd6\xdd\x0f\x1e\x52\xcd\x36\x71\x92\xde\x52\x19\x47\x46\x10\x9e\xdf\xad\x2b\x1a\x8d\x7c\x95\xa7\x17\xb0\xb0\x4c\xe6\xe3\xdf\x16\x0f\x96\x0f\x9b\x75\x58\xfe\xbb\xb8\x74\xe3\x4d\x2f\x81\x2e\x98\xb2\x4a\x3c\x93\xc4\x76\xc7\xa1\x3e\x82\xcf\x68\x1e\xdf\xdb\xa4\xa0\x0d\xf5\xe0\xf1\x11\x3d\x63\x8d\xb5\xe3\x85\x83\x4c\x77\x05\xd9\x07\xfd\x24\xcb\xe2\x1d\xeb\x05\xff\xa7\xce\x1d\x62\x8d\xcc\xa0\x79\xed\x39\xda\xa5\x05\xc9\x3d\x0d\xa4\x08\x23\xa6\x03\x24\xf1\x78\xb8\xa1\x8a\x02\x7e\x09\x62\x6a\x20\x63\xb3\xf1\x48\x1f\x52\xc5\x71\x06\x3d\xec\x98\xb8\x97\x31\x6e\x65\x82\xc2\xac\x61\x6a\xed\x28\xf1\x78\x52\xcf\xe0\xed\x3b\xac\xe8\x4d\xcc\x41\xda\x84\xca\x10\x7c\x00\x9f\x3f\x5d\x00\xdd\x32\xf1\x9b\xc2\xb0\x0d\x42\x18\xc1\xe7\x0f\xc9\x57\xbb\x01\x76\x6d\x02\x09\xf6\x5b\x0a\x97\xf0\xb3\xff\xff\x97\x7f\xa1\xf9\x33\xa7\x05\x8e\x49\xe0\xaf\x74\x1b\x76\x0d\x10\x8d\x4b\x98\xd4\xb3\xb7\x17\xf8\xf2\x9d\xd9\x32\x23\x88\xb1\x3c\x45\xd1\x6d\x16\x47\x56\xf4\x00\x2e\x4a\xe5\x89\x2f\x30\x36\x86\x69\xe2\x0a\x6d\x29\x28\xca\xe2\x1c\x99\xd6\x79\x09\xd8\x31\x1a\x21\x70\x93\x03\x36\x50\x4d\x85\xf1\x4b\xfa\x10\x3f\xe8\x43\xa7\x68\xa4\x04\xb4\xbf\x76\x5b\x95\xb0\x09\x03\xd5\x0b\x9f\x51\x78\xfd\x1a\x67\xb9\x30\xd2\xf9\xd7\x46\x57\x20\x63\x9b\x5e\x44\x32\x31\x63\x78\x11\x65\x41\x9d\xa8\x55\x52\xda\xdb\xdc\xc6\x87\x11\xc0\xd4\x9d\x11\x7b\x71\xe6\x98\xc2\xf0\x54\x67\xae\xbc\x49\x1d\xaa\x0a\x2d\xbc\xec\x60\xa7\xc2\x99\x42\x77\xb0\x00\xfc\x62\x01\x67\xef\x5b\x1e\x89\x17\x0d\xd0\xc4\x13\xa8\x71\x02\xed\x02\xbc\x45\xda\xcc\xd0\x33\xda\x9d\x5b\x63\x27\xaa\xc7\x16\x08\x83\x54\xd8\x0a\xce\xef\x86\x2f\x0e\x1a\x3c\x5e\xc0\xeb\x80\xc5\xe3\x22\x1e\x83\xa6\xc5\xae\x07\xad\xb0\xef\xce\xbe\xa8\x24\xad\xbe\x3a\x84\x63\x50\xb2\x9e\x1b\x45\xe6\x3b\xc7\x76\x9e\x1b\xc2\x69\x21\x8d\xc3\xe9\xf8\x54\x95\xb5\xa1\xae\x43\xac\xec\x5b\x05\x19\x39\xf8\x50\x70\x3f\xf0\xe2\x1f\x83\xcb\xea\x74\xa8\xe1\xcc\x68\x2f\xd5\xa5\xdf\x99\x0e\x32\x3a\xa3\x1c\x78\x8a\x2a\x21\xbd\xc2\x28\x28\x0a\x20\x25\x31\xd0\xd1\x6e\x7c\xeb\x9d\xb5\x1a\xc8\xa8\x16\xd0\xc2\xc2\x03\xef\xb2\x79\xe6\x36\xc0\x6b\x4a\xb2\x27\x79\x1e\x6b\xe0\xc7\x55\x4c\xda\x2b\x02\x33\xd4\xa6\x23\x88\x8c\x24\xe0\xa8\xc9\xad\x35\x85\x2b\xb3\xe4\x8c\xac\x32\x68\x0b\xa2\x2f\xd5\xda\x82\xda\x0a\x35\xf4\xbb\x2e\x2e\xc1\x5d\x89\x69\xc4\x9d\x31\x22\x55\xf7\xe0\x49\x9e\x97\x0f\x37\x84\x4b\x46\x72\x0c\xd9\x49\x5e\x1b\x8b\xf3\x19\x13\x53\xc2\xb3\x37\x85\xba\xbe\x74\xd1\xb4\xd8\xb2\x11\x5c\xfa\x25\xf8\x13\xee\x89\x54\x4c\x5c\xee\x09\xd5\x6e\xb1\xda\x2f\x58\x3b\x45\xab\x41\xa3\x45\x4c\x77\x60\x37\x1d\x64\x35\xd4\xfb\x28\x99\xab\x09\x12\x78\x0a\xf1\x29\xc9\x0c\x3b\x98\x36\x44\xa0\x41\xcb\x85\x02\xd0\x5d\xbd\x21\x9c\x2c\x85\xf5\x85\x7e\x45\xb8\x88\x79\x62\x2a\x75\x9a\x76\x0c\x1c\x7c\xa8\x29\x5f\x37\xdd\x79\xfa\xe6\xf5\x77\xe9\x2f\xf1\x65\x6c\x07\x78\x5d\x42\xdf\x41\xd2\x55\xb2\x17\x97\x0d\xd7\xaa\xdb\x1c\xc6\x3b\x52\x75\x36\x85\xed\x96\x7e\x57\x6a\xab\x1d\x22\xb5\x48\xdd\x07\x83\xb8\x0a\x4a\xfa\x0d\x2d\xd4\xa4\x6e\x37\xd1\x75\x6a\x45\x8c\xdd\xaf\x61\x14\x5e\x15\xb4\x9c\xed\xe1\x41\x3f\xec\xe3\xa1\x96\xf5\x63\x10\x71\xc7\xea\x73\x4e\x3f\x34\xd9\x70\xe3\x11\xa9\x30\xb5\xed\xda\x84\x1d\x3b\xbc\xad\x4e\x89\xd9\x97\x07\xd5\xf2\x51\x58\xd7\xc3\xe9\x75\x22\x94\xfc\xdc\x75\x35\xb4\xe3\xc5\x4f\xc8\x71\x76\x20\xd8\x25\xfb\x3a\x0d\xf7\xbe\xb4\xa7\x33\x91\xfa\x04\xc5\x8b\x3d\x31\xb1\x2b\x24\x9c\x2c\x78\x23\xe8\x0d\x0a\x18\x94\x97\xc2\x17\x1f\x6f\x04\xbd\x2e\xea\xe5\xcb\x7a\x39\xa1\x5c\x5c\x34\x0d\xd7\x4b\x26\xdf\x14\x55\x59\xd5\xe8\x6f\x67\x4e\xac\x6c\xc3\x96\x3c\x6d\x70\xb3\xe8\xb8\xba\xf7\x34\x56\xa8\xa6\x2f\xa8\x10\x64\x4e\x93\xa1\xca\x08\xcb\x06\xef\x47\x46\x5a\x39\x73\x52\x59\x52\x5e\x2f\x3f\x4d\xeb\x8a\x23\x85\x31\x06\xba\x02\x34\xdd\x41\xca\x3d\x2d\xd4\x97\xaf\x6d\xac\x73\xee\x99\x13\x83\x19\x5a\x04\xbc\x9f\x9d\x5d\x10\x01\x0b\x92\x85\x2a\xa9\xda\x97\x8f\x55\x59\xc0\x0c\x6b\x40\x19\x86\x9c\x1b\xfe\xf6\xef\x11\xcb\x05\xd5\x50\xb4\x21\x25\x52\xab\xf4\x5d\x1a\x18\x99\x19\x43\xb9\x2e\x66\x69\xd1\x31\x1e\x2e\xa2\x2d\x4a\x0d\xa4\x9d\xf4\x1d\x4c\xf7\x0e\x26\x71\xef\x47\x8e\x42\xe9\x37\x54\xc6\xf7\xb8\xe1\xc3\x79\xdf\x1d\xfc\xe3\xfb\xa4\x0b\x06\xca\x67\x24\x77\x5d\xd0\xe6\xbe\xd6\x74\x81\xb2\x2c\x55\x2d\x24\x17\x25\x6e\x81\x39\xc3\x4a\xda\x43\xcd\xf3\x70\x78\xf6\xc8\x74\x3d\xc7\x5b\xcd\x23\x23\xc4\x6f\x88\x5c\x24\x87\x06\xba\x5d\xc1\x2a\x7f\xe4\x39\x14\x22\x51\xf2\xd1\xe9\x69\x04\x61\x32\x32\xf6\xdd\x09\xe9\x69\x6f\x74\x13\xbf\xed\xc8\x4e\x17\x80\x3d\x8d\xf4\x82\x9c\xad\xd0\x6a\x25\xd2\x50\x6d\x59\x4a\x15\xbc\xc0\xd8\x04\x29\xf0\x52\xd8\xf7\x58\xe1\x5f\xe9\xeb\x67\xfa\x1d\xca\xc9\x69\xb9\xa4\xfa\x56\x44\x33\x49\xc6\xc4\x14\x2f\xf5\xaf\x41\xac\x85\xa4\xcb\x11\x08\x55\x6c\x9e\xb3\x7b\x9a\xaf\x2d\xd3\x21\x1b\x41\xb4\x28\x85\xbc\x40\x8e\x8e\x8c\x00\x6d\xad\x20\x76\x53\xd9\x7a\xe5\xde\xb0\xf0\xe9\xc9\x6b\x36\x83\x4f\x2c\xcb\x5d\x99\x6f\x01\xb8\x09\x47\x10\x5d\x8c\xc7\x91\x8a\xa2\x04\x0e\x8b\x4b\x88\xf0\xa8\x62\x0b\xfc\x3f\x47\x07\xe4\xc9\xa0\x76\x32\xb0\xe6\x79\x7a\x83\xb6\x89\x03\x76\x74\x11\x18\x9a\x16\x75\x68\x2e\x05\xa3\x5f\xd9\xe1\x6f\x98\xd4\xad\xbe\x3d\x11\xbd\x2c\xf5\x36\x7a\x91\x73\x5d\xbd\xaf\xc8\xa1\xe3\x4c\x08\xe8\xa1\xe4\xf7\x23\xd0\xd1\x78\x30\x7a\x1e\xdd\x3e\xbc\xde\xc7\xb5\xb5\xa9\x5b\x19\x12\x30\x6a\x22\xc2\xca\x58\x38\xde\x13\x0a\x36\x1b\xbc\x2c\xbc\xeb\xfa\x18\xa4\xb1\x55\x05\x17\xad\xa9\x81\xe2\x94\x15\x19\x7d\xdc\x1f\xf1\xa5\x1d\x63\xea\x04\x76\x7d\x8a\xa1\x32\x01\x34\x35\xd4\xdf\xc1\xc0\xb8\x8e\x8b\xc2\x5e\xad\x80\x29\x03\xe8\x8d\x48\x1b\xfb\x31\x98\x96\xd5\xfa\xcd\xeb\xef\xe2\x7a\x04\x7e\xff\xa7\x44\x50\x14\x1e\x18\x99\xb6\x5d\x1b\xdb\x60\x1f\xab\xb6\x55\xda\x0e\x3f\x1b\xca\x74\x54\x14\xec\x95\x0b\x04\xbb\x15\x03\xd6\xb2\x6d\x76\xb3\xf5\xbb\xf9\xe9\x84\x55\x67\x11\xc1\xe0\xbe\xc3\xf9\x9f\x6a\xe7\xfb\x62\xf4\xa6\x48\x61\x97\x88\xb6\xd9\x54\x5b\x0c\xae\xd7\x2b\x5e\x50\x72\xc7\xee\xe3\x84\x08\x0a\x67\x78\x86\xdf\xbc\xfe\x6e\xa4\xf2\x56\x46\x31\x25\xee\x35\x9e\xdf\x02\xad\x82\x8b\x4b\x38\xc3\x01\xfa\x51\xe5\x28\x8c\x73\xe0\xc8\xf9\x39\xb6\x98\xf0\xc2\x95\x7c\xb4\x59\xd7\x5b\xb4\x6e\xa7\xaa\x7a\xbe\xe6\x26\x50\x83\xec\x68\x0f\xae\x2c\xa1\xaa\xf3\x5c\xbd\x37\x5a\x8e\x66\x58\x01\x26\xa0\xac\x51\x71\x5b\xe3\xd5\x28\x25\x15\xdc\x31\x4a\x6f\x69\x0d\x58\xdf\xfd\x44\x4b\xc1\x04\x3b\x52\x80\x97\xa5\x34\xb7\x81\x11\x24\xc2\x52\x92\x62\x41\x56\x14\xec\x57\x3e\x86\x0d\x12\x35\xcf\x44\x25\xc2\xcc\x85\x38\x75\xe3\x07\xe5\xbe\x45\x0d\xef\x56\x9b\xd4\x01\xb1\x15\x4f\xca\xf2\xc0\x55\xad\x5d\x0c\xdc\x65\x0d\xfd\xeb\x7a\x94\x3b\x75\x6b\xb2\xd6\x6d\xda\xe9\x4c\xb5\x77\x1d\xa5\x5f\x1b\xf8\xf1\x9e\x8e\x4e\x26\x99\x37\x70\x9d\xf3\x08\xdb\xf0\x27\xcb\x55\x3b\x7b\x07\x03\xdc\xbb\x41\x5e\xbb\x0c\x9d\x52\x4e\x90\xab\x90\xd6\x28\x51\xfa\x2a\x6f\x0e\x0a\xec\xdd\x80\x54\xa7\xb0\x19\x8c\x47\xed\x7a\x57\x26\x18\xa5\x6d\xb1\xdd\x80\x94\x8d\xd1\x98\x69\xec\x68\x1d\x9c\x69\x3c\x9f\xdd\x80\x94\x79\x8d\x6e\xaf\x36\xf2\x4c\x02\xc6\xb5\xa0\x39\x4d\x54\x30\xe0\xcf\xbe\xfc\xd2\xcf\x44\x8d\xe0\xc1\xa4\x5b\x54\xb8\xb3\xe2\x14\x4d\x1c\xa2\xce\x03\x29\x14\x2c\x65\x12\x28\x46\x25\x52\xe2\xf7\x1a\xf0\xfc\xe8\x55\xf8\xe7\xcf\x84\xaf\x61\xa9\x1d\x98\x06\x47\x8b\xc4\xc1\x80\x99\xad\x3c\xe9\x08\x98\x75\x92\x7d\x38\x5e\xa6\x27\x3d\x3d\x60\x76\x4a\xfc\xeb\x12\xbb\xa4\xd7\xaf\xbe\xee\x0d\x81\x61\x0c\xbb\x89\x8c\x23\x63\x28\x12\x00\xd2\x71\xed\xc7\xbc\x76\xcc\x9f\x2e\x58\x18\x4e\xeb\x88\xa6\x39\xa0\x06\x9c\x86\xc7\xbd\x4c\x04\x7c\xd2\x4a\x7b\xbc\xfa\xc5\xe0\x14\xb3\x78\x37\x0f\x91\x8c\x20\xf2\x78\xe6\x02\xbe\xf8\x2c\xfb\x22\x1a\xb5\xe6\x70\x73\xa3\x39\x82\x0b\x3e\xc4\xcd\xe1\xc9\x51\xbd\xde\xa0\x5e\x5f\x4c\x6f\x1b\x1e\x1f\xd1\x13\x55\xf2\xd5\xe1\x4d\xf0\x89\x62\x17\x6c\x3a\x7d\xde\x14\x49\x07\xed\xa8\x8c\x2f\x80\xae\x8b\x13\x05\x90\xeb\xe9\x19\x06\x7b\x26\xc1\xb9\x11\x55\x47\x98\x50\x83\x91\x20\x17\x3b\x0f\x9d\xaf\x6b\x82\x41\x40\x8e\x0f\x97\xab\x2f\x57\xe0\xc9\x5f\x11\xce\xca\x5a\x00\xaa\x13\xb4\xc2\x50\x2f\x07\xe3\xf1\xbe\xf2\x8d\xd1\x8e\x18\x81\x0a\x97\xe9\x74\x39\x1e\x92\xc4\x8a\x82\x23\x96\x35\x2c\x0b\x54\x97\x9e\xea\x34\x17\x38\xc2\xcf\x4f\xad\x48\x8e\x7b\x11\x45\x26\x2e\xa9\x5f\x0d\x7f\x79\x60\x87\x18\x66\x36\xcd\xe4\x36\xbe\xc9\xe9\x87\x30\xdc\x51\x5f\xbd\x8e\xf1\x6e\xbf\x7e\xcf\x5b\xc7\x24\x6e\x95\xcc\xc6\xeb\xf9\x72\x81\x61\x5f\xb2\xa4\x12\x93\x36\x78\x87\x5c\x2e\x10\x6d\xeb\xc7\xa9\xf2\x2c\x9b\x52\xda\xb9\x7f\x2a\xa8\x0a\x0e\xb5\x22\x9d\x38\xcb\xad\x7e\xef\x42\x9d\xb6\xe3\x76\xf7\x16\x2a\x9a\x8c\xd1\x58\xe1\xdf\xe5\xed\x21\x2e\xc3\xa9\x83\x5d\x19\x84\x72\xae\xac\xf3\xac\xf8\x42\x36\xa7\x57\xaf\xf2\xb3\x0f\x91\x36\x3e\xad\x04\xd5\x54\x79\x4d\x1e\x8c\x91\x59\xdb\xdf\xae\xcd\x35\xe0\x8f\x1d\xca\x29\xc6\x6b\x93\xce\x4b\x46\xef\xc4\xab\x51\xc0\xc9\x65\x65\x92\xb3\x66\x83\xe5\xb2\x6a\x93\xb3\x2f\x72\x0d\x96\x8e\xe7\x70\x5c\xd0\x98\xcd\xd4\x81\x30\xdd\x5e\xd3\x8a\x62\x84\xd1\x0e\x7b\x2e\x9e\x12\x4f\xa2\x36\x90\x63\xeb\xb3\xdb\x9e\xdf\x94\xd8\x0b\x22\xbb\xfd\x51\x62\x47\xe8\xa5\xbe\x8d\x5c\x80\xfa\x97\x2e\x1a\x6f\x4a\xbc\xdf\x69\x16\x4e\x5d\x8f\x2b\xb2\xa4\xa6\x26\xbc\x99\x95\xe6\xc2\x3d\xef\xa7\xeb\xfb\xc6\xdb\x6c\x88\x41\x43\xa5\xef\x07\x50\x19\x79\x1f\xbd\x8a\x57\x18\xf1\x6a\xb2\x26\x2d\x6e\x44\x9c\x10\x23\x24\x46\xc9\x21\x46\x7d\xb9\x47\xb4\x64\x97\xae\x16\x7f\x45\x77\xd3\x76\x2b\x09\xbf\x7e\xac\xf8\x76\xcb\x66\xfd\xcb\xb0\x0c\x0d\x8d\x67\x15\x04\x81\x5c\x9a\xbb\x71\x3b\x25\x26\x7d\x60\xcc\x7a\x3a\x0e\x49\xe7\x39\x31\xc7\x64\x46\x58\xae\x6b\x80\xec\x29\xe9\x83\x1f\xb5\x09\x66\x44\x9e\x95\x10\xb1\x5c\x56\x49\x78\xd2\x6e\x68\x08\xc9\x10\xd5\x60\xdb\xa2\x89\xde\x16\x4b\xa0\xcd\x66\x7c\xf6\x87\x7f\xfd\x9b\x1f\x7e\xff\xcf\x3f\xfc\xd3\xbf\xfd\xf0\xf7\xbf\xfb\xe3\x3f\xfe\xed\x7f\xfe\xfb\x7f\xfc\xe1\xf7\x7f\xf7\xc3\xbf\xfc\xee\x8f\xbf\xfb\x87\xb3\x31\x9c\x0f\xef\x89\x23\x58\xdf\x92\xe1\x93\x4b\x9f\x88\x1f\xc1\x66\x67\x7d\xa0\xf7\xd8\xcf\x5f\xd9\x47\x4c\x74\x68\x9e\x36\x19\x9b\x92\xc4\x9d\x27\xf3\xb0\xdd\xb6\x45\x52\x89\x79\xab\xbe\x4c\xd6\xbe\x5c\x52\xdd\xfb\xe5\x52\x03\xb6\x72\x7a\x43\x0f\x31\x36\x1b\xb4\xf6\xcd\x1d\xc1\x52\xb5\xb6\xcf\xa0\x79\xb7\x7b\x08\xd1\x8e\x5d\xe1\xf5\x1e\x5d\x8c\x63\xa8\x63\x3a\x7b\xe4\x51\xa5\xe3\x16\x88\xca\xce\x19\xed\xeb\x79\x8e\x03\x67\x71\x45\xf2\xb4\x51\xe7\x06\x8c\x21\xbc\x1d\xdb\x7d\x20\x3f\xe6\x48\xb6\xe0\xdb\xe3\xe8\x58\x68\xe8\x48\xee\xb1\x94\x01\x75\xe8\x54\x76\xb3\xe7\x4f\x4c\xdc\xa3\x51\xf3\xd8\x7d\x88\xf0\x7b\xb8\xfb\xdc\xbe\xf3\xd8\x7a\x32\x0f\x2a\x30\xdb\x98\x05\x0a\x11\xb8\x34\x35\x66\xc6\xe0\x8d\x95\x05\x65\x58\xbe\xf0\x4c\x39\x15\xce\x8c\xe6\x54\xea\xaf\x36\xfa\xa6\x02\x1a\xa6\x6d\x4b\x41\x96\xaf\xa9\xfc\x58\xe3\xf0\x18\x8b\xe1\xfc\x40\x96\xb9\x9d\xed\x1e\x9f\xc1\xab\x22\x5f\xab\x2f\x40\x21\xc2\xaa\xb7\x30\xd9\x2e\xb1\x40\x83\x0a\x26\x2e\x98\x84\x63\x31\x01\x81\x77\x21\x15\x65\x4b\xb9\xf0\xcb\x4b\xcb\x25\x93\x68\x6e\x64\xb5\xfa\x38\x0d\xba\xad\xac\xa0\x42\xc0\xd9\xd8\xcc\xa8\x96\xdf\x29\xb5\x0e\x18\x0d\x8d\x30\x6b\xed\x9f\x39\x2e\xbb\x1e\xe1\x8b\xc3\xfe\x60\xe3\x10\xf6\x26\x70\xfb\x33\xb8\xbd\x29\x5c\x75\x7a\xf0\x76\x86\xb3\x69\x1d\x86\x4e\x82\x1c\xfc\x8e\xd8\x90\x69\xab\x3d\x2c\xe5\xc1\x63\xd4\x05\x45\x13\x7c\xb6\x8a\x46\xa0\x28\xdb\x18\xb8\x4f\xb1\x83\x8b\x49\xb8\x2f\x74\xc6\x58\x22\x28\xb0\x18\xfd\x69\x3d\x9b\x51\x1e\x23\xae\x7e\x09\x35\xf8\x75\x04\xc6\x3d\x0d\xf6\x3f\x5b\x76\xf0\xa3\x25\xee\x2b\xa6\xc7\x26\xea\x5e\x3e\xb9\xbb\xfd\x98\x1b\x1a\xb6\xd2\x0c\xc7\x83\x0e\x6f\xba\x67\x73\x6b\x13\x71\x41\x44\x8b\x11\x08\xbe\xd2\xcf\xee\xab\x74\xc6\xa1\xdb\xff\x20\xde\xb1\x37\x2f\xbb\xee\x50\xde\xd6\x13\xc7\x00\x88\x03\x6a\xf2\x9a\xde\xd6\x13\x31\xe5\x6c\x42\xe3\x9d\x3b\x93\x46\x76\x7a\xb7\xa6\xd0\xc9\xeb\xea\x83\xd2\x9a\xaf\xfc\x2f\x76\x28\x20\xf4\x85\x98\xab\xc5\x26\x07\x39\xcb\x70\x08\xfa\x99\xdd\x88\x7b\x77\x12\x3d\x36\xd8\x6c\x5a\x1f\xb1\x20\xf7\xd4\xdb\xb0\x63\x3f\x13\x83\x43\x8e\xf8\x4c\x4c\x03\xf9\xe0\x75\x96\xd6\x27\x72\x53\x47\x60\x73\x49\x20\xf1\xf7\xba\xe7\xf3\x30\xc3\x10\x4c\x3d\xc2\xff\xbc\xaf\xc4\x34\xeb\x3a\x78\x3f\xd5\x30\xa9\xdb\xe3\x0b\x68\xaf\x19\x6f\x75\xb8\x65\x9f\xf4\x69\x18\xdc\x28\xaf\x87\xd1\x57\x23\x73\xbb\xfd\xba\xe8\xec\xe3\xa5\xdc\x9a\x1e\x3b\x05\x3e\xa7\x7e\x3b\xc6\xdb\x65\xef\x02\xc1\xe9\xdf\x8e\xf1\xe0\xb8\x6a\xe1\xc3\xc4\xf5\x96\x07\x00\x67\x6d\xea\x36\xa4\xdd\xfb\x14\x8c\x99\x69\x37\xcd\xd0\x37\x8f\x17\xe8\x46\x92\x6d\x36\x6d\xb2\x77\x27\x5c\x96\x62\x6e\x04\xe0\x0b\x31\xef\x8f\x6f\xef\x17\x7e\x76\x5d\xaa\x1c\x28\x1f\x5f\x8a\x79\xfa\x4c\xe9\xbd\xee\x82\xc7\xae\x0c\xbd\xe5\xe5\x9e\x1b\x9a\x86\x3c\x26\x08\xda\x54\xac\x75\xf0\xcb\x6e\x9c\x52\x2d\xf8\x88\x8a\x35\x8c\xa1\x41\x39\xf9\x0d\x56\x62\x98\x30\xa4\x70\xfb\x65\xbf\xc6\xf1\x82\x14\x6b\x9d\x7a\xc1\x84\x9c\xad\xcc\xd0\x1f\xf5\xab\x31\x64\x80\xf9\x0f\x44\x0f\x05\x60\x21\x18\x66\xdf\xcc\x9d\x21\x23\xd4\x7a\xf1\xee\x49\x92\xe1\xbc\xc6\xa2\x1f\x41\x31\x6d\x69\x30\x97\x1e\xe8\x8e\x4b\x5a\x3a\xb7\x78\x50\xcf\x8f\x4b\xf0\x27\x36\x13\xe1\x0c\x0d\xd8\xe4\x94\xe2\x1a\x5c\x91\x09\x55\xdb\x77\x27\x14\xd7\x78\xa3\x0f\x7c\xfb\x01\x97\xff\xdf\xfd\xed\x87\x06\xbb\x7d\x2b\xa2\x57\x01\xdd\xd4\x93\x9c\x89\x05\xe5\xa7\xd4\xce\x74\x7f\xf8\xe1\x58\xeb\xe3\x63\xbe\xfc\x60\x2b\x3a\x86\x86\x5d\xee\xf0\xd0\x4b\xfa\xe0\x56\xa7\x94\x84\xf7\x09\x88\x20\x38\xc2\xa0\x09\xbd\xba\x8d\xd6\x51\xf0\x8b\x35\x9e\xd1\x43\x3a\x63\xbf\x4a\x63\xb7\x48\xa3\x55\x12\xeb\x04\x8a\x3d\x19\x9d\x25\x19\x9d\x22\xd7\xb8\x52\x1e\x22\x3b\x25\x13\xa7\x7f\xd7\x01\x17\xd6\x97\x5d\xee\x13\xfb\x2e\xa9\xdc\x43\x95\x4e\xd9\x77\xdc\x77\x1d\xac\x5e\xf8\x93\x7d\xc1\xa1\x07\xe5\x23\x54\x15\xf4\xeb\x2a\xac\xa4\x3b\x42\x0d\x51\xce\xed\x7c\x7b\xea\x68\x3c\x86\x7d\x8d\x34\x1e\xc3\xd6\x83\x6e\x07\xa7\xaa\x9c\xde\x0e\xfe\xfc\xf3\xfd\xb6\x14\x53\x9a\xea\xeb\x91\xef\x99\xb9\x24\xf6\x3e\xea\x99\xc6\xa6\x79\xf7\x81\xd8\x5a\x5e\x8b\x48\x47\x6a\xb4\xf3\xbb\x14\xc7\x2a\xe5\xae\x9c\xe5\xb0\x56\xee\xfe\x8c\x93\xcf\xc3\x46\x37\x77\xab\x66\x93\x3e\x1b\xd0\xcc\xed\xdb\x37\xee\xbf\xbb\x63\x4a\x78\x4c\x84\x44\xb9\x0e\x3d\xca\x1a\xb7\xda\x4a\xfa\x17\x62\xbe\xab\xab\xcf\x15\xae\x3f\x8d\xc2\x3e\xd6\xc6\x3a\x94\x38\xb4\x24\xef\x55\xd0\x6e\x22\x75\x22\x1c\xb8\xc4\xdb\x86\xff\x1a\x00\xf3\xfa\xa3\xcd\x27\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xdc\x38\x76\xf8\x59\xfa\x14\x6f\x04\xcf\x8c\xd4\xbf\x6a\xd5\xfc\x02\x24\xd8\xb4\x51\x01\xec\x76\xcf\x8c\x77\xc7\x76\xaf\xdd\xde\x39\x18\x86\x97\x55\x62\x55\x71\x5b\x25\xc9\x22\xab\xbb\x6b\x2b\x75\xc9\x65\x03\x24\x40\x80\x9c\x72\x08\x16\x39\xe5\x1a\xe4\x9c\xcf\xb3\x13\xec\xb7\x08\x1e\xf9\x48\x51\x55\x52\xfd\xf1\xcc\x06\x41\x10\x23\x99\x2e\x89\xe4\xe3\xe3\xe3\xe3\xfb\x4f\xed\x70\x08\x97\x65\xc6\x61\xc6\x0b\x5e\x33\xc5\x33\x18\xaf\x60\xcc\xea\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x06\xae\x9e\x3d\xbf\x49\xc3\xe1\x10\x5e\xf3\x7a\x59\x14\xa2\x98\x99\x0e\x70\x2f\xf2\x1c\xca\x3b\x5e\xdf\xd7\x42\x71\x50\x73\x21\x61\x2a\x72\xae\x3b\xff\x8a\xd7\x52\x94\xc5\x05\xac\xd7\x29\xfd\xde\x6c\xbc\x06\x78\xc6\x14\xf7\x5b\xf1\x79\xb3\x09\xc3\x8a\x4d\x6e\xd9\x8c\x63\xcb\xb5\xf9\xf9\x92\x2d\x74\xcb\x70\x08\x37\x76\x0e\x98\x94\x85\x62\xa2\x90\xb0\xe0\x6a\x5e\x66\x12\x54\x09\x0b\x76\xcb\x41\x14\x99\xb8\x13\xd9\x92\xe5\xc0\x8b\xac\x2a\x45\xa1\x24\x4c\xeb\x72\x01\x92\xd7\x77\x62\xc2\xe5\x00\xd1\xa8\xf9\xc7\x25\x97\x0a\x58\x91\x41\xcd\x65\x55\x16\x92\x83\x5a\x55\x5c\x43\xc2\xae\xb8\xa2\x52\xf2\x06\xca\x00\x98\x84\x7b\x9e\xe7\xf8\x97\x17\x93\x32\xe3\xb5\x44\x00\x08\x2f\xe3\xf4\x3c\x2d\x6b\x1a\xa8\xa1\x0d\xf4\x0b\x86\x94\x9a\x42\xb9\xac\x41\x2e\xab\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x2d\x53\xa2\x2c\x10\xda\xb4\xac\x17\x4c\xc9\x34\x0c\xc5\x42\xf7\x88\xc3\x20\x1a\xaf\x14\x97\x51\x18\x44\xb8\x76\xfe\xa0\xf0\xa7\x46\x43\x14\xb3\xe1\x6f\x64\x59\xe0\x8b\xe9\x42\xbf\x17\xa5\xf9\xef\x50\x94\x4b\x25\x72\x7c\x28\xb8\x1a\xce\x95\xaa\xec\xef\x65\xad\x5f\x4b\x55\x4f\xca\xe2\x8e\x7e\x8a\x62\x26\xa3\x30\x0c\xa2\x99\x50\xf3\xe5\x38\x9d\x94\x8b\xe1\xac\x3c\xbf\x15\x6a\x88\xff\x6f\x69\x11\x85\x01\x2b\x56\xd5\x18\xa2\x59\x59\xce\x72\x9e\xce\xca\x9c\x15\xb3\xb4\xac\x67\xc3\xaa\x2e\x55\x39\x5e\x4e\x87\x7a\xfd\xc3\xdb\xa2\xbc\x2f\x86\xba\x77\x14\x06\xd9\xb2\xd6\x8b\x3c\x61\x68\x33\x24\x0a\x03\xbe\xa8\xd4\x29\xf3\x52\xff\x28\x0c\xa6\x82\xe7\xd9\x82\xc9\xdb\x13\x46\x7b\x63\xa2\x30\x90\xaa\x5e\x4e\xd4\x09\xc3\xed\x80\x28\x0c\x94\x58\x70\xa9\xd8\xa2\x3a\x61\xb8\x37\x26\x0a\x83\xfb\x9a\x55\x15\xaf\xe5\x09\x00\x9a\x21\xbb\x5b\x5a\x8b\x3c\x67\xc3\xc5\xf2\x21\x6a\xb7\x54\xb7\xb3\x21\xaf\xeb\xb2\xd6\x9c\xb6\x67\x22\xc7\x79\xfa\x8d\x65\xbf\x3d\x03\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x05\xfe\x11\xd2\xcb\xb2\x98\x8a\x59\x7a\xe3\x4e\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\xb4\x71\xc3\xb7\xe7\xa2\xd4\x7f\xd3\x19\x72\x38\x82\xe2\x45\xb6\xd9\x1c\x05\x75\x56\x57\x13\x0b\x75\x07\x4f\xdd\xd8\xdb\x32\x5c\x70\xc5\x32\xa6\xd8\xf6\xa4\x47\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\x34\xc4\xc6\x5f\x27\x4c\x81\xdd\xdb\x38\x22\xba\x35\x2b\x66\x1c\x1e\x55\x70\x31\x82\xf4\x8d\x91\xb9\xe9\x73\x2d\xc6\xb8\x5e\x88\xa0\xdf\xeb\xf5\xa3\x2a\x35\xc2\x1d\x22\xfd\x70\xcd\xd4\x7c\xb3\x69\x81\x4c\xc2\x30\xbc\x63\x35\xc4\x61\xf0\x01\x46\x30\x5d\xa8\xf4\x4d\x55\x8b\x42\x99\x67\x2d\x13\xd3\xcb\x72\x51\xb1\x9a\x9b\x57\x24\xd0\xd2\x27\xaa\x14\xe6\x4d\x8b\x72\xe9\x4b\x7e\x8f\x58\xf1\xda\x34\x1a\x01\x99\xbe\x2c\xab\xcb\xbc\x94\xcd\xdb\xf4\xb2\xac\x56\xe6\xc1\x9c\x87\xf4\xfb\x9a\x55\x61\x30\x1c\x02\xb1\x88\xe5\x6c\xa3\x36\xb0\xab\x96\x72\xe9\x93\x42\x8f\x6b\xe4\x56\xfa\x8c\x7e\xe2\x6b\x92\x48\xe9\x15\xfe\xc5\x17\x56\x4a\xa4\x6f\xf4\x0f\x7c\xe5\x9d\xfc\xf4\xc6\xfe\xc6\x86\xe6\x44\x63\x6f\x51\xcc\x7e\xc5\xf2\xa5\x5e\xb7\x27\xaa\xd2\xaf\xf1\xf7\x0b\x26\x6f\xc3\x24\x5c\xaf\x0f\xec\x87\xeb\xa0\xb0\xc3\xa3\x2a\xbd\xc1\xd5\x18\x5d\xbd\x5e\x3f\x52\x9b\x0d\x08\x09\x4c\x2f\x12\x75\x98\x9a\x73\xa8\xab\x89\x84\xfb\xb9\x98\xcc\xdb\x1b\x07\x19\x9f\x8a\x82\xcb\x34\xd4\xbd\x69\xf8\x08\x3a\x76\x3c\x35\x8d\xe1\x7a\xad\xd9\x9b\xfe\x84\xc3\xb3\xa3\xfe\xc1\x95\x55\xca\x60\x5f\x1d\xfe\x37\xd4\x26\xc4\xf3\x02\x18\x2a\xdc\x3b\x5e\x0f\x40\xa8\x2f\x25\x2c\x25\x9f\x2e\x73\xad\xa7\xa7\xcb\x62\x82\x7b\x26\x41\xcd\x99\x82\x82\xa3\x9a\x2e\xa1\xac\xb4\x71\x04\x25\x8e\xad\x78\x7d\x6e\xf5\x20\x02\x1c\x33\x29\x64\x0a\x5f\x97\x35\xf0\x07\xb6\xa8\x72\x3e\x80\x55\xb9\x84\x85\x98\xcd\x15\x54\x4c\xa2\x8d\xe0\x21\xac\x4a\x60\x6e\x22\x33\x4f\x55\x97\xd9\x72\xc2\x25\x82\x63\x85\xe6\xd7\xf4\x5b\x56\x64\x39\xe2\x78\x2f\xd4\x1c\x38\x9b\xcc\xc9\xd4\x81\xd8\xce\x9e\xc0\xbd\xa8\x79\x06\xcb\x0a\x91\x64\x20\x2b\x3e\x11\x53\x31\x81\x8a\xa9\x79\x0a\xf1\x73\x85\x00\x85\x84\xaa\x2e\xc7\x6c\x9c\xaf\x80\xc1\x42\x48\x65\xcc\x24\xc8\xb8\x14\xb3\x02\x87\x8a\xe2\xae\xbc\x45\x7b\x87\x03\x31\x88\x33\xab\x34\x8a\x1c\xe1\x34\x2b\x30\x1c\x0b\xa2\xa1\x64\x9a\x84\xc3\xa1\xa3\xee\x24\x17\xbc\x50\x6d\xea\xaa\x12\x26\x65\x9e\xf3\x89\xf2\x2c\xb4\x7c\x05\x93\xb2\x30\xe0\x78\xe6\xd9\x6b\xa2\xc0\x05\x21\x40\x29\x8a\x59\x6e\x2c\x33\x43\x2b\x81\x14\x5e\x70\xc4\xc3\xc7\x57\x14\x8a\xd7\x53\x36\xe1\x7d\x3b\x81\xc0\xdc\x64\xdd\x56\xe2\x12\x27\x6b\xcc\x32\x6d\x2d\xa1\xb8\xb8\xa4\xf5\x4c\xca\xc5\x58\x14\x9a\x4e\x0b\x42\xd1\xdb\xd8\x01\xd9\x92\x6a\x59\x17\x20\x14\xd2\x15\x11\x9c\xb0\x3c\xe7\x35\x30\x3c\x43\x84\x2c\x1d\x8f\x1d\x82\xae\xc3\xe0\x6d\xe1\xd6\x87\xc7\xc5\x9d\x57\x23\x26\x49\x6e\xb9\x23\x2b\x5a\x67\xfa\x85\xd9\x32\x14\xb1\xeb\xf5\x23\x41\x07\xcd\xce\x02\x00\x6e\xa9\xa9\x7d\x69\x8f\x5f\x68\xcc\x6b\xfb\x5a\x1e\x9e\x02\x19\x18\x62\x6f\x11\x09\x78\x93\xc6\x13\xf5\x00\x64\xa6\xa2\x6e\xc4\xbf\x03\x64\x98\xb3\xf5\xfa\x9b\x12\x11\x83\x47\x22\x7d\x6d\x6c\x70\x14\x38\x34\x2e\x81\x78\xab\x87\xb1\xcc\xbd\x2e\x03\x23\x8e\x13\x58\x87\x81\x35\xdc\xf5\x3b\xa4\x05\x4f\x3b\x56\x8e\xc8\xe0\xe4\x49\x18\xa0\xb6\xae\x6b\xf8\x6c\x04\x85\xc8\x11\x42\x40\xfb\x55\x88\x5c\x03\x09\x83\x4d\x68\xdf\x59\xe8\xe9\x41\x9c\x92\x01\xc2\x0b\x9d\x34\xd3\xc4\x7c\xc1\x6e\x3d\xf2\x84\xeb\xb5\x3e\xc8\x8f\x14\x47\x44\x53\x2d\xfa\x9c\xb2\xd4\x54\x7e\xa4\x78\x1f\xa1\x11\x56\xd7\xca\x24\x12\x5d\xf1\x4e\x36\x49\x76\xb7\x1b\xd6\x6e\x71\xb8\x7f\xdd\xbb\x64\x3d\x23\x77\xa2\xd6\x9b\x04\x62\x4b\x0c\xff\xb5\xa6\x98\xb7\x1d\x41\xcd\x3f\xe2\x42\x08\x42\x1a\x1f\xda\xed\x30\x08\xee\xdc\xde\x49\x7f\xef\x10\x35\x8d\x4a\x12\x06\x1d\xbb\xb6\xbb\x6d\xb8\x6f\xf6\xed\x9d\xd9\x8e\x60\xa3\x77\xc4\x5a\x12\xfe\xde\xa0\x2a\x7f\x92\xe7\x57\x0f\x13\x5e\x29\xad\x55\xa5\x11\xb1\x8e\x52\x5a\x9f\xa2\xbe\xa3\xb3\x69\x1b\x24\xe8\x6d\x64\x08\xc5\x33\x8a\x1c\xa9\x5f\x88\x2c\xcb\xf9\x3d\xab\x8d\x1b\xfc\x56\x5a\xc7\x18\xbd\xc0\xaa\xca\x57\x28\x62\x50\x6c\x2a\x04\xbe\x70\xbd\xb5\xdb\xc9\xef\x78\xbd\x72\xdb\x86\xe7\x05\x25\x08\xf9\xad\x1a\xde\xab\x0a\xb5\x06\xcb\xf3\xd5\xc0\xf5\x93\x30\x61\x05\x8c\xb9\xd6\x35\x3c\xc3\x61\xe3\x15\x14\x48\x76\x55\xe2\x7b\xfe\x30\xc9\x97\x19\xcf\x8c\x1b\x3c\xe6\x88\x02\xae\xb9\xe2\x59\xba\x43\x8d\xb8\xc1\x69\x00\xd1\x1b\xc5\xd4\x52\x46\x03\x88\xae\x45\x31\x8b\x12\x77\xee\xcf\x1c\x41\x92\xde\xf1\x0e\x43\x8f\x2a\x83\x06\x9b\x34\x4d\xa5\x36\x62\x34\xf3\x88\x82\x5e\x5f\x8c\x60\xc1\xaa\x77\xa6\xe9\xbd\x21\xff\x7a\x83\xec\xb5\x7d\x60\x3a\x4e\x4b\x10\x04\x91\xc7\x46\xd1\x05\xac\x37\x83\x30\xf0\x6d\xd4\x4d\x18\x06\xa8\xeb\x3f\x20\x2a\x08\xc6\x80\x74\x68\xe1\x4c\x62\x0a\x1f\x06\x50\xde\x62\xb3\x45\xec\x1d\x7f\x78\xff\x18\x3e\x2b\x6f\x11\xdb\x20\xa8\x58\x21\x26\x71\x63\x8f\x4e\xe3\xe8\xca\x82\xb0\xeb\x86\x2f\x3f\x97\x5f\x42\x56\x72\x09\x45\xa9\x80\x3f\x08\xa9\x1e\x83\xe4\xdc\xdf\x78\xe7\x54\x6b\x9f\x06\x91\x4a\x12\xe2\xe7\x8c\xe7\x5c\xf1\xd8\x62\xa0\xdb\x9a\x05\x88\x62\xd2\xa0\x6f\xfb\x68\xe4\xd0\x68\x15\xc5\xe4\x68\x92\x89\xa9\x06\x36\x1a\x41\x8b\x78\x1a\x56\x10\x74\x0a\x55\x18\x79\x6b\x88\x3b\xbb\xe0\x2a\x82\xcd\x36\xf1\xcd\x01\xfc\x8e\x8d\x79\xce\xb3\x86\x2f\x4c\x34\x69\xc6\x95\xe5\x62\xe4\x7c\x47\x47\xcd\xcc\xf7\x73\x5e\xb8\xd6\xd2\x63\x5c\x02\x66\xf8\x6f\x60\xce\x1b\x1d\x89\xa5\xe9\x0c\x26\x44\xc5\x4c\x9c\x4b\x4c\xd0\xbc\xa9\xc5\x44\x1b\x5c\xcd\x32\xc8\xa4\xc5\xa1\x92\x17\x5d\x28\x90\x4e\xa7\xd1\xd6\xa2\x29\x6b\xd2\xe8\xbb\xab\xc2\xe3\x12\x1b\x56\x1e\xec\xca\xe3\x0e\x11\x1d\xf6\xad\xeb\x93\xa5\xd4\x0e\x52\x03\x5a\xa7\xa6\x78\xcd\x27\x5c\xdc\xa1\x90\xe2\x66\x89\x64\xe2\x3b\xc4\xe0\x0d\xe7\x0e\x8c\x07\x45\x37\x58\x93\x94\x10\xbe\x7a\x40\x44\x91\x37\x33\xae\x98\xc8\x25\x5a\xcc\xf6\x60\x21\x10\x6b\xf6\xb2\x5c\xa8\x55\xba\x4f\x98\xb4\xd6\x1e\x2f\x7e\x04\x45\xff\x4f\xe2\xfc\x6f\x94\x38\xad\x61\x03\x38\x49\x00\x1d\x1f\xb5\x39\xd6\x1d\xfd\xe6\xf5\xf5\x25\xae\x93\xd7\x27\xfb\xa3\x68\xda\x79\xc3\x31\x86\x2d\x1b\x03\xc1\xed\x14\xb0\x3b\x26\x72\x36\xce\xb9\x71\x25\x66\xaf\xaf\x2f\xa1\xc7\x41\xa0\x83\xd5\x86\xec\xbc\x46\xd9\x48\x89\x01\x94\xda\x9e\x90\x78\x32\x5a\x01\x2a\xcd\xe8\xbc\x36\xe6\x46\xd2\x37\x11\x6e\x97\xf4\x3a\x4a\xe4\x8e\x77\xef\xfb\x21\x21\x1f\x77\xb5\x3e\xe5\xd3\xb2\xe6\x31\x62\xfb\x82\x02\x6d\x37\x25\x59\xa4\xc9\x00\x77\x6d\x6b\x9e\x11\x1a\x53\xbc\xc8\xe2\xd6\x6b\xb7\x9e\x34\x4d\x13\x1d\xaa\x59\xaf\xe1\xa6\xfc\xae\xbc\xe7\x75\xc3\x88\x48\x2a\xdc\x5c\x6b\x2e\x7e\x81\x18\x61\x23\xaf\xd7\xe8\x3a\x1d\xe4\xde\xf5\xda\xc2\x74\x2c\x47\xde\xfa\x05\xb4\x57\xe7\x62\x4d\x31\xf2\xb5\xdb\x81\x2e\x66\x45\x2b\x25\x78\xa6\xb3\x08\x48\x06\xaf\x07\x19\xce\xba\xc3\x55\xd1\xd9\x81\xdc\x20\xec\xd1\x22\x48\x9a\xa6\x38\x0c\x49\xb8\x75\x06\x50\x1a\x37\xeb\xde\xf6\xaa\x9d\xdd\xde\xbd\xed\xce\x07\x30\x6a\xcf\x83\xf3\x27\xf0\x64\xfb\x68\x0d\xb0\x45\x6c\x7a\xef\x99\xfc\xc6\xd6\x20\x68\x3a\xc0\xe3\xa1\xaa\xca\x66\xd5\xc7\x2f\xf8\x20\xc6\xfa\xe8\xc5\x12\xce\x9a\xa9\x92\x06\xfc\x01\x0f\x19\x1d\xa8\x9f\xd6\x45\xfe\x80\x5e\x54\xd5\x72\xb2\xfa\x08\xaa\x17\xa3\x79\xcb\xf7\xbe\x4e\x74\x99\xab\x4f\xf4\x96\x89\xd0\xe6\x00\x1c\xa6\xf2\x70\x08\xfb\xce\x0a\x85\x2c\x2d\x6b\xe8\x68\x7a\x6a\x06\x50\x8f\xaf\x71\x9b\x74\x40\x09\xb3\x5f\xbc\x56\xd2\xc4\x9b\x48\xae\xee\xd0\xc8\xb9\xc5\x18\xf5\xc1\xa0\x56\x7d\x9e\x95\x0b\x26\x8a\x7d\x9d\x53\xb8\xae\xc5\x82\xd5\x22\x5f\xd9\x38\x98\x1f\x34\x33\x62\x7a\xdf\x3a\xe2\x0f\xbb\x3c\x82\x6b\x79\xcd\x3f\x36\x3c\xa9\xfd\x73\xef\xa9\x1d\x21\xd1\x1e\x39\x8d\x39\xc6\x23\x77\x3b\xf9\x71\xcf\x36\x5d\x15\x47\x6f\xd3\x5e\x89\xd5\xb9\x4f\x66\x84\xed\xd2\xb7\x51\x87\xb7\x80\xa6\xd0\x1b\xb6\x67\x5b\xab\x7c\x75\xd4\x3e\xed\x5d\x48\xd7\x46\x75\x85\x4c\xf6\xed\x94\xd4\x29\x13\x3b\xea\x88\x73\xe4\x6d\x96\xac\xba\x76\xeb\x5b\x9e\x63\xb6\x20\x34\x8c\xd6\xa9\x5d\xbb\xe5\xd0\x22\x03\x9b\xf0\x4a\x5f\x3c\x4b\xb6\x3b\x20\xbe\x28\x4d\x6f\x07\x70\xd7\x18\x84\x0b\x67\xc9\xde\xb5\x62\x35\x3a\x6f\xcf\xe1\x96\xaf\xf4\x76\x67\x68\xf2\x8e\x4b\x35\x47\x1a\xdb\x59\x28\xe3\x0d\xf1\x6d\x42\xde\x09\x76\xcd\x73\xc8\x71\xbf\x08\x0a\x23\x9f\x4c\xc7\x65\x2f\x59\x51\x16\x62\xc2\xf2\x6f\x39\xcb\x78\xfd\x0b\xbe\xb2\xae\x0b\x4e\x24\x4b\x8a\x16\x2b\xf2\x04\x2d\x88\xc9\x84\xdb\x20\x09\x17\x6a\xce\x6b\x9a\x19\xdb\x91\x14\x23\xb7\xd6\xef\x85\x9a\xeb\xf4\x0a\x92\x68\xa0\xd7\xfa\xee\xab\xf7\xc9\xc1\x8e\x3d\xd8\xc5\xb7\x49\x03\x81\x9c\x02\xda\xbe\x89\x7a\xd0\x1a\xd9\x1a\x86\xfb\xff\xe9\x7d\x34\x21\xe9\x93\x8d\xcd\x97\xfc\xde\x1b\x6d\xa6\xd7\xe9\x09\x8a\x31\xc1\x98\x4d\x6e\x71\x7b\x56\xf6\xcc\x98\x58\x3e\xae\xb5\xe0\x3a\x35\x92\xc2\x73\x85\xfb\x48\x59\x01\x62\x57\x31\x16\xe8\xd2\xd9\x2d\xa0\xa0\xb7\x2a\x21\x13\x2c\x37\x91\xf1\x9c\x29\x5e\xc3\x04\x93\x6c\xe8\xa3\x73\x1f\xa6\x61\xd0\x16\x76\x31\x36\x1b\x2d\x9a\x1a\x7c\x2f\xcb\xa2\xd8\x63\xb1\x9a\x4e\xd6\x62\x8d\x7b\x4c\x56\xff\xc8\xa1\xa1\xb0\x1d\x94\x0d\x76\x3d\x18\x3f\xc0\xda\x88\xb6\xe0\x8e\xd5\x5d\x12\xc5\xda\x73\xbb\x8e\x68\x18\xac\xbb\x8d\x47\x37\x64\xb4\x6b\x3e\x12\x31\x34\xd7\xe1\xfa\xad\xbf\xe9\xe1\xf4\xf5\x32\xcf\xad\x23\xd4\xb8\xa3\xd7\x4f\xfd\x77\x57\xc5\x01\xc3\xf2\x19\x3f\x64\x58\x1e\x90\x46\x26\xce\x16\x34\x06\x38\x3e\x26\x6e\xf1\xb1\x76\x23\x35\x75\xc9\x0a\x75\x82\xca\x4a\x31\xdb\x55\x1e\xb4\xc2\xe1\x9c\xec\x70\x87\xa9\x1d\x7b\x81\x69\x8e\x3d\x24\x1e\x34\xf3\x06\x1b\x2b\x32\x51\x54\xe2\xca\x81\xce\xc5\x8f\x37\x42\xf6\x68\xb7\x67\xfc\x18\xed\xb6\x5f\x5f\x1d\x6b\x84\x90\x26\xe9\xd1\x6e\xe6\x68\xd3\xd9\x7b\xc6\x4f\xd4\x6e\xb8\x98\xd7\x1a\x99\x23\xd5\x1b\x76\x75\xa6\x08\x2a\xdd\x93\x14\x5c\x95\xaf\xba\x34\x9c\xbf\x6d\x3f\xde\x28\xe9\xb7\x1d\xaf\x8a\x23\x6c\xc7\xc3\x1b\xe2\x99\x90\x7b\x76\x78\xaf\xed\xd8\xda\xb5\x7d\xeb\xe8\x36\x49\x68\x89\xc7\x6d\xd9\xa9\xd9\x9c\xfd\xb6\x23\x61\xa1\x75\xaa\xbc\x29\x7d\x73\xc4\x9c\x94\x2e\x79\x4e\xf3\xe0\x39\x31\x8c\xba\x07\x4a\x7c\xcb\x57\x12\xde\xbd\xb7\x31\xbe\x03\xf0\x8e\xca\x86\x2d\x32\x38\x3b\x64\x0a\x69\x55\x50\x31\x51\x37\x93\x87\x81\x8d\xf8\xdd\x36\x06\x92\x46\x6f\x4d\xe1\xaf\x3b\x1b\xed\x9b\xa8\x87\x54\xd3\x24\xbe\x4d\x52\x8a\x6c\x26\x8f\xc1\x46\xfd\x02\x03\xd8\x05\x3c\xf4\xa3\x31\x47\x5c\x7c\x0b\x85\x28\xc2\xd4\x6d\x2d\xdb\xeb\x6c\x91\x61\xdc\xcc\x2e\xe0\xe7\xa5\x28\xe2\xb3\x45\x36\x68\x5e\x5d\xe3\x98\x58\x8f\xc4\xa8\x49\x62\xc1\x11\x65\xd0\x36\xa1\xa0\xd9\x69\x15\x1a\xdf\xde\xdc\x5c\x93\xb7\x60\xdf\x1d\xfe\x37\x0c\x43\x9d\xa3\x37\x54\x2e\x34\x7b\xc1\x08\x22\x56\x55\xb9\x98\xe8\x1a\x1a\x5d\xe9\xf8\x18\x26\x73\x56\x4b\xae\x46\x4b\x35\x3d\xff\x59\xe4\x22\x69\x38\x2b\xb9\xb3\x94\x8a\x47\xc6\x9a\xd3\x1b\x7d\x66\x0f\x47\xd8\x10\x58\x59\x40\x55\x73\x53\xcf\x92\xe9\x82\x0a\x49\x67\x6e\x6b\x9a\x83\x71\xb5\x76\xf5\x51\x3b\xae\xe6\x57\x7a\x58\x8b\x44\x4c\x21\xd5\xf0\xb5\xf1\xee\xc9\xad\xad\xd8\x0e\xf2\xce\xbb\xf7\xfd\xd0\xf5\xfe\x77\x35\x53\xb0\xcd\xcc\x81\xd6\xa9\x6c\xc5\xda\xba\x07\x5d\xa1\x24\x37\xe2\xa6\x8e\xb9\xf7\xd0\x3f\xe4\xc9\x54\xf1\x3a\xde\x6e\x51\x97\xcd\xd6\xc6\xde\x36\x27\x1a\xd0\xee\x2a\x8f\x8a\xf4\x51\xc8\x47\x47\xf5\x16\x48\x98\xc5\xf2\x01\xad\xa7\xd7\xe5\x12\x71\x48\x42\xcf\xa2\xa0\x94\xc5\xc5\xa8\x97\xcc\xae\xeb\x18\xcb\x44\x8a\x19\x02\xa4\x61\xe9\x53\xf3\x8a\xc2\xd8\x0b\x3b\x2e\x46\xa3\x8b\xba\x63\x45\xf3\x18\xfe\x1a\x6e\xca\xb7\x58\xb1\xb9\xd9\x44\x89\x2e\x90\x6a\xf5\xc1\x17\x37\x7c\x51\xa1\x55\xac\x7b\x58\x76\xea\x29\x56\xd3\x01\xc4\x76\x04\x91\x30\xda\x31\x70\x9c\x35\x87\xcb\xf3\xa6\xd4\x29\x15\xa7\x1e\x4c\x47\xb3\xa3\xd8\xf1\x1b\x93\x19\xb3\x6a\xd8\x34\x77\x05\x13\x03\x9d\x2c\x68\x82\x6c\xfe\x4f\x12\x1a\x0b\x32\xaa\x7c\xa6\x31\x29\x38\xed\x37\x18\xb3\xc0\x26\xd3\xec\x8c\xdf\x63\x7b\x3d\x40\xdf\x23\xe3\x53\xb6\xcc\x15\x6a\x3b\xc3\x20\x78\x22\x6d\x01\xda\xb6\x2c\x18\x00\x83\x71\x99\x69\xf7\x0f\x9f\x4d\xea\x0b\x9d\xc0\x48\xcf\x13\x39\xbf\xf1\x0e\xa5\x2c\x82\xd2\xef\x53\x8d\x5d\x9c\x18\xef\x84\x81\xd4\xa9\x6e\x40\x7a\x20\xa8\x3f\xff\xea\xab\x14\x9e\x53\x32\x0c\x7b\xfa\x31\x52\x73\x6e\x78\xad\x4b\xc9\xb1\x47\x55\x97\x77\x02\x1d\xdb\xb9\x6e\xc1\x2a\x81\x3c\xc7\xdc\xbb\xc6\xd6\xe4\x20\xb1\x5f\x63\x93\xf9\xa0\x11\x8a\x07\x1d\x57\x91\xbe\x60\xb5\x9c\x33\x5d\x01\x66\xf1\x5f\x98\x57\x98\xbe\x97\xcb\xc9\x84\xf3\x4c\x1a\x4f\xea\xe7\x6f\x5e\xbd\xa4\x8a\xf4\xcc\x96\x8f\x5b\x57\x4c\xaf\xd5\xa1\x83\xf9\xd0\xfe\x65\x99\x6c\x3f\x5e\x08\xa8\x07\xd6\xc1\x73\x2b\x6b\x1a\x5b\xd0\x40\x14\x52\x71\x96\x59\x9a\x19\x21\xe9\x4b\x88\x2e\x43\xc4\x15\x8e\x0c\xe0\xde\xd4\xbb\xb5\xd9\x40\xdb\x8c\xb8\xab\x03\xf8\x80\xc7\xcf\x27\x89\x11\x3f\x98\x72\xac\x78\xbd\xd6\xbb\x78\x81\x6b\xb1\x1b\x8a\x96\x88\x98\x5a\x6a\x21\x01\x8d\xa2\xc5\x2e\x71\x9b\xb6\x8d\x9e\x15\x53\xc0\xa6\xa7\x7a\x4a\x1a\x7a\x65\x62\xa6\x0e\x90\x1d\x87\xe4\x8e\x93\xc7\x76\x06\xec\x36\xf2\x74\x2e\xa2\x0d\x23\x07\xce\xba\xfb\xc1\x7d\x6a\xd8\x26\x4e\xd2\x37\x5c\xc5\x11\x09\xc2\xf3\x9b\x55\xc5\xa3\x81\xaf\xf2\xcc\x02\xe6\x96\xc9\x7c\xfc\xdb\xe2\xc1\xf2\x61\xb3\x0e\xcb\x7f\x17\x23\x37\x9e\x7a\x49\x74\xc1\xb4\x55\xe2\x99\x24\xb6\x3b\x0e\xf5\x11\x7c\xc6\xf3\xf8\xd6\x26\x05\x6d\xa8\x07\x8f\x8f\xec\x19\x4b\xd6\x8e\x17\x0e\xa2\xee\x1a\xb2\x0f\xfa\x49\x96\xc5\x5b\xd6\x0b\xfe\x9f\x3e\x77\x88\x35\x32\x83\xe1\xb5\xe7\x68\x97\x16\x2c\xf7\x34\x90\x26\x8c\x9c\xec\x21\x89\xc7\xc3\x0d\x55\x34\xf0\x11\xc8\x09\x41\xc6\x66\xf2\x48\xef\x53\xcd\x71\x84\x1e\x76\x4c\xdc\xcb\x18\xb7\x32\x41\x61\xd6\x30\xb5\x71\x94\xea\x78\xbc\x9c\xc2\xbb\xf7\x58\x7f\x9c\xd0\x41\x5a\x87\xda\x10\xbc\x07\x9f\x3f\x5d\x00\xdd\x32\xf1\xdb\x82\xd8\x06\x21\x0c\xe0\x8b\xfb\xe4\xf1\x76\x80\xdd\x98\x40\x52\xfc\x96\xc3\x08\x7e\xf6\xff\xff\xf2\x2f\x0c\x7f\xe6\xbc\xc0\x31\x09\xfc\x95\x69\xc3\xae\x01\xa2\x31\x82\xf1\x72\xfa\xee\x02\x5f\xbe\xa7\x2d\x23\x41\x8c\xe5\x29\x9a\x6e\xd3\x38\xb2\xa2\x07\x70\x51\x3a\x4f\x7c\x81\xb1\x31\x4c\x13\x57\x68\x4b\x41\x51\x16\xe7\xc8\xb4\xce\x4b\xc0\x8e\xd1\x00\x81\x53\x0e\x98\xa0\x52\x3d\xf4\x4b\x7e\x1f\xdf\x9b\x43\xa7\x69\xa4\x05\xb4\xbf\x76\x5b\x95\xb0\x0e\x03\xdd\x0b\x9f\x51\x78\xfd\x1a\x67\xb9\x20\xe9\xfc\x6b\xd2\x15\xc8\xd8\xd4\x8b\x29\x21\xa7\x02\x6f\xe2\xcc\xb9\x13\xb5\x5a\x4a\x7b\x9b\xdb\xf8\x30\x12\x84\xbe\x34\x63\x6f\x0e\x1d\x53\x19\x9f\x9a\xcc\x95\x37\xa9\x43\x55\xa3\x85\xb7\x3d\xec\x54\x38\x53\xe8\x0e\x16\x80\x5f\x2c\xe0\xec\x7d\xcb\x23\xf1\xbc\x01\x9a\x78\x02\x35\x4e\xa0\x5d\x80\x37\x4f\x9b\x19\x7a\x46\xbb\x73\x4b\x76\xa2\x7e\x6c\x81\x20\xa4\xc2\x56\x70\x7e\x3b\x7c\x71\xd0\xe0\xf1\x02\x5e\x07\x2c\x1e\x17\xf1\xd8\x6b\x5a\x6c\x7b\xd0\x1a\xfb\xee\xec\x8b\x4e\xd2\x9a\xbb\x53\x38\x06\x25\xeb\x39\x29\x32\xdf\x39\xb6\xf3\x5c\xb3\x9a\x17\x8a\x1c\x4e\xc7\xa7\xba\xac\x0d\x75\x1d\x62\x65\xdf\x6a\xc8\xc8\xc1\x87\x82\xfb\x81\x17\xff\xd8\xbb\xac\x4e\x87\x1a\xce\x48\x7b\xe9\x2e\xfd\xce\x74\x90\xf1\x29\xaf\xa1\x4e\x51\x25\xa4\x97\x18\x05\x45\x01\xa4\x25\x06\x3a\xda\x8d\x6f\xbd\xb5\x56\x82\x8c\x6a\x01\x2d\x2c\x3c\xf0\x2e\x9b\x47\x77\x17\x5e\x73\x96\x3d\xc9\xf3\xd8\x00\x3f\xae\x62\xd2\x5e\x68\x98\xa2\x36\x1d\x40\x44\x92\xa0\x46\x4d\x6e\xad\x29\x5c\x99\x25\x67\x64\x95\x41\x5b\x10\x7d\xa5\xd7\x16\x2c\xad\x50\x43\xbf\xeb\x62\x04\xee\x4e\x50\x23\xee\xc8\x88\xd4\xdd\x83\x27\x79\x5e\xde\x5f\xb3\x5a\x09\x96\x63\xc8\x4e\xd5\x4b\xb2\x38\x9f\x09\x39\x61\x75\xf6\xb6\xd0\xf7\xb7\x2e\x9a\x16\x5b\x36\x82\x4b\x1f\x81\x3f\xe1\x8e\x48\xc5\xc4\xe5\x8e\x50\xed\x16\xab\xfd\x82\xb5\x53\xb4\x12\x1a\x2d\x62\xba\x03\xbb\xee\x20\x2b\x51\xef\x93\x64\xae\x21\x48\xe0\x29\xc4\xa7\x2c\x23\x76\xa0\x36\x44\xa0\x41\xcb\x85\x02\xd0\x5d\xbd\x66\x35\x5b\x48\xeb\x0b\xfd\x8a\xd5\x32\xae\x13\xaa\xd4\x69\xda\x31\x70\xf0\x71\xc9\xeb\x55\xd3\xbd\x4e\xdf\xbe\xfe\x2e\xfd\x25\xbe\x8c\xed\x00\xaf\x4b\xe8\x3b\x48\xa6\x4a\xf6\x62\xd4\x70\xad\xbe\x7b\x42\xde\x91\xae\xb3\x29\x6c\xb7\xf4\xbb\xd2\x78\xf0\x10\xe9\x45\x9a\x3e\x18\xc4\xd5\x50\xd2\x6f\x78\xa1\x27\x75\xbb\x89\xae\x53\x2b\x62\xec\x7e\xed\x47\xe1\x55\xc1\xcb\xe9\x0e\x1e\xfc\xe3\x2e\x1e\x7a\x59\x3f\x06\x11\x77\xac\xbe\xa8\xf9\xc7\x26\x1b\x4e\x1e\x91\x0e\x53\xdb\xae\x4d\xd8\xb1\xc3\xdb\xea\x94\x98\x7d\x79\x50\x23\x1f\xa5\x75\x3d\x9c\x5e\x67\x52\xcb\xcf\x6d\x57\xc3\x38\x5e\xf5\x09\x39\xce\x0e\x04\xbb\x64\x5f\xa7\xe1\xde\x97\xf6\x74\x26\x52\x9f\xa0\x78\xb1\x23\x26\xb6\x85\x84\x93\x05\x6f\x25\xbf\x46\x01\x83\xf2\x52\xfa\xe2\xe3\xad\xe4\x57\xc5\x72\xf1\x72\xb9\x18\xf3\x5a\x5e\x34\x0d\x57\x0b\xa1\xde\x16\x55\x59\x2d\xd1\xdf\xce\x9c\x58\xd9\x84\x2d\x79\xda\xe0\x66\xd1\x71\x75\xef\x69\xac\x51\x4d\x5f\x70\x29\xd9\x8c\x27\xfb\x2a\x23\x2c\x1b\x7c\x18\x90\xb4\x72\xe6\xa4\xb6\xa4\xbc\x5e\x7e\x9a\xd6\x15\x47\x4a\x32\x06\xba\x02\x34\xdd\x41\xca\x1d\x2d\xd4\x97\xaf\x6d\xac\xf3\xda\x33\x27\xf6\x66\x68\x11\xf0\x6e\x76\x76\xce\x24\xcc\x59\x16\xea\xa4\x6a\x5f\x3e\x56\x67\x01\x33\xac\x01\x15\x18\x72\x6e\xf8\xdb\xbf\x48\xad\xe6\xdc\x40\x31\x86\x94\x4c\xad\xd2\x77\x69\x60\x64\x66\x0c\xe5\xba\x98\xa5\x45\x87\x3c\x5c\x44\x5b\x96\x06\x48\x3b\xe9\xbb\x37\xdd\xbb\x37\x89\x7b\x3b\x70\x14\x4a\xbf\xe1\x2a\xbe\xc5\x0d\xdf\x9f\xf7\xdd\xc2\x3f\xbe\x4d\xba\x60\xa0\x7c\x46\x72\x2f\x0b\xde\xdc\xd7\x9a\xcc\x51\x96\xa5\xba\x85\xe5\xb2\xc4\x2d\xa0\x33\xac\xa5\x3d\x2c\xeb\x3c\xdc\x3f\x7b\x44\x5d\xcf\xf1\x5a\xf7\x80\x84\xf8\x35\x53\xf3\xe4\xd0\x40\xb7\x2b\x58\xe5\x8f\x3c\x87\x42\x24\x4a\x3e\x39\x3d\x8d\x20\x28\x23\x63\xdf\x9d\x90\x9e\xf6\x46\x37\xf1\xdb\x8e\xec\x74\x01\xd8\x93\xa4\x17\xe4\xe2\x0e\xad\x56\xa6\x88\x6a\x8b\x52\xe9\xe0\x05\xc6\x26\x58\x81\x97\xc2\xbe\xc7\x0a\xff\xca\x5c\x3f\x33\xef\x50\x4e\x4e\xca\x05\x37\xb7\x22\x9a\x49\x32\x21\x27\xf8\x55\x83\x15\xc8\x95\x54\x7c\x31\x00\xa9\x8b\xcd\x73\x71\xcb\xf3\x95\x65\x3a\x64\x23\x88\xe6\xa5\x54\x17\xc8\xd1\x11\x09\xd0\xd6\x0a\x62\x37\x95\xad\x57\xee\x0d\x0b\x9f\x9e\xbc\x16\x53\xf8\xcc\xb2\xdc\x25\x7d\x0c\xc1\x4d\x38\x80\xe8\x62\x38\x8c\x74\x14\x25\x70\x58\x8c\x20\xc2\xa3\x8a\x2d\xf0\xff\x1c\x1d\x90\x27\x83\xa5\x93\x81\xcb\x3a\x4f\xaf\xd1\x36\x71\xc0\x8e\x2e\x02\x43\xd3\x62\x19\xd2\xad\x68\xf4\x2b\x3b\xfc\x0d\x4a\xdd\x9a\xdb\x13\xd1\xcb\xd2\x6c\xa3\x17\x39\x37\xd5\xfb\x9a\x1c\x26\xce\x84\x80\xee\xcb\xfa\x76\x40\xb7\x4b\x81\xf4\x3c\xba\x7d\x78\xbd\xaf\x36\xd6\xa6\x69\x15\x48\xc0\xa8\x89\x08\x6b\x63\xe1\x78\x4f\x28\x58\xaf\xf1\xb6\xf4\xb6\xeb\x43\x48\x63\xab\x0e\x2e\x5a\x53\x03\xc5\xa9\x28\x32\xfe\xb0\x3b\xe2\x2b\x3b\x86\xea\x04\xb6\x7d\x8a\x7d\x65\x02\x68\x6a\xe8\xff\x06\x7b\xc6\x75\x5c\x6b\xf6\x6a\x05\xa8\x0c\xa0\x37\x22\x4d\xf6\x63\x30\x29\xab\xd5\xdb\xd7\xdf\xc5\xcb\x01\xf8\xfd\x9f\x32\xc9\xe9\x4e\x6f\x62\xbb\x36\xb6\xc1\x2e\x56\x6d\xab\xb4\x1d\x7e\x26\xca\x74\x54\x14\xec\x94\x0b\x04\xdb\x15\x03\xd6\xb2\x6d\x76\xb3\xf5\xbb\xf9\xe9\x84\x55\x67\x11\xc1\xde\x7d\x87\xf3\x3f\xd5\xce\xf7\xc5\xe8\xa9\x48\x61\x9b\x88\xb6\x99\xaa\x2d\xf6\xae\xd7\x2b\x5e\xd0\x72\xc7\xee\xe3\x98\x49\x0e\x67\x78\x86\xdf\xbe\xfe\x6e\xa0\xf3\x56\xa4\x98\x12\xf7\x1a\xcf\x6f\x81\x56\xc1\xc5\x08\xce\x70\x80\x79\xd4\x39\x0a\x72\x0e\x1c\x39\xbf\xc0\x16\x0a\x2f\x5c\xaa\x07\x9b\x75\x7d\x83\xd6\xed\x44\x57\xcf\x2f\x6b\x0a\xd4\x20\x3b\xda\x83\xab\x4a\xa8\x96\x79\xae\xdf\x93\x96\xe3\x19\x56\x80\x49\x28\x97\xa8\xb8\xad\xf1\x4a\x4a\x49\x07\x77\x48\xe9\x2d\xac\x01\xeb\xbb\x9f\x68\x29\x50\xb0\x23\x05\x78\x59\x2a\xba\x0d\x8c\x20\x11\x96\x96\x14\x73\x76\xc7\xc1\x7e\xe6\x64\xbf\x41\xa2\xe7\x19\xeb\x44\x18\x5d\x88\xd3\x37\x7e\x50\xee\x5b\xd4\xf0\x6e\x35\xa5\x0e\x98\xad\x78\xd2\x96\x07\xae\x6a\xe5\x62\xe0\x2e\x6b\xe8\x5f\xd7\xe3\xb5\x53\xb7\x94\xb5\x6e\xd3\xce\x64\xaa\xbd\xeb\x28\xfd\xda\xc0\x8f\xf7\x74\x74\xa2\x64\xde\x9e\xeb\x9c\x47\xd8\x86\x3f\x59\xae\xda\xd9\x3b\x18\xe0\xde\x0e\xf2\xda\x65\x98\x94\x72\x82\x5c\x85\xb4\x46\x89\xd2\x57\x79\x73\x50\x60\x6f\x07\xa4\x3a\x85\xcd\xde\x78\xd4\xb6\x77\x45\xc1\x28\x63\x8b\x6d\x07\xa4\x6c\x8c\x86\xa6\xb1\xa3\x4d\x70\xa6\xf1\x7c\xb6\x03\x52\xf4\x1a\xdd\x5e\x63\xe4\x51\x02\xc6\xb5\xa0\x39\xcd\x74\x30\xe0\xcf\xbe\xfa\xca\xcf\x44\x0d\xe0\x9e\xd2\x2d\x3a\xdc\x59\xd5\x1c\x4d\x1c\xa6\xcf\x03\x2b\x34\x2c\x6d\x12\x68\x46\x65\x4a\xe1\xd7\x25\xf0\xfc\x98\x55\xf8\xe7\x8f\xc2\xd7\xb0\x30\x0e\x4c\x83\xa3\x45\xe2\x60\xc0\xcc\x56\x9e\x74\x04\xcc\x3a\xc9\xbe\x3f\x5e\x66\x26\x3d\x3d\x60\x76\x4a\xfc\x6b\x84\x5d\xd2\xab\x57\x5f\xf7\x86\xc0\x30\x86\xdd\x44\xc6\x91\x31\x34\x09\x00\xe9\xb8\xf2\x63\x5e\x5b\xe6\x4f\x17\x2c\x0c\xa7\x75\x44\xd3\x1c\x50\x02\x67\xe0\xd5\x5e\x26\x02\x3e\x6b\xa5\x3d\x5e\xfd\x62\xef\x14\xd3\x78\x3b\x0f\x91\x0c\x20\xf2\x78\xe6\x02\xbe\xfc\x3c\xfb\x32\x1a\xb4\xe6\x70\x73\xa3\x39\x82\x0b\x3e\xc4\xcd\xe1\xc9\x51\xbd\xde\xa0\x5e\x5f\x4c\x6f\x13\x1e\x1f\xd1\x93\x55\xf2\xf8\xf0\x26\xf8\x44\xb1\x0b\xa6\x4e\x5f\x34\x45\xd2\x41\x3b\x2a\xe3\x0b\xa0\xab\xe2\x44\x01\xe4\x7a\x7a\x86\xc1\x8e\x49\x70\x4e\xa2\xea\x08\x13\x6a\x6f\x24\xc8\xc5\xce\x43\xe7\xeb\x52\x30\x08\xd8\xf1\xe1\x72\xfd\xe5\x0a\x3c\xf9\x77\xac\x16\xe5\x52\x02\xaa\x13\xb4\xc2\x50\x2f\x07\xc3\xe1\xae\xf2\x8d\xd1\x8e\x18\x80\x0e\x97\x99\x74\x39\x1e\x92\xc4\x8a\x82\x23\x96\xb5\x5f\x16\xe8\x2e\x3d\xd5\x69\x2e\x70\x84\xdf\xdf\xba\x63\x39\xee\x45\x14\x51\x5c\xd2\xbc\xda\xff\xe5\x81\x2d\x62\xd0\x6c\x86\xc9\x6d\x7c\xb3\xe6\x1f\xc3\x70\x4b\x7d\xf5\x3a\xc6\xdb\xfd\xfa\x3d\x6f\x13\x93\x78\xa3\x65\x36\x5e\xcf\x57\x73\x0c\xfb\xb2\x05\x57\x98\xb4\xc1\x3b\xe4\x6a\x8e\x68\x5b\x3f\x4e\x97\x67\xd9\x94\xd2\xd6\xfd\x53\xc9\x75\x70\xa8\x15\xe9\xc4\x59\xde\x98\xf7\x2e\xd4\x69\x3b\x6e\xb6\x6f\xa1\xa2\xc9\x18\x0d\x35\xfe\x5d\xde\x1e\xe2\xb2\x3f\x75\xb0\x2d\x83\x50\xce\x95\xcb\x3c\x2b\xbe\x54\xcd\xe9\x35\xab\xfc\xfc\x63\x64\x8c\x4f\x2b\x41\x0d\x55\x5e\xb3\x7b\x32\x32\x97\xf6\xb7\x6b\x73\x0d\xf8\x63\x8b\x72\x9a\xf1\xda\xa4\xf3\x92\xd1\x5b\xf1\x6a\x14\x70\x6a\x51\x51\x72\x96\x36\x58\x2d\xaa\x36\x39\xfb\x22\xd7\x60\xe9\x78\x0e\xc7\x05\x8d\xc5\x54\x1f\x08\xea\xf6\x9a\x57\x1c\x23\x8c\x76\xd8\x73\xf9\x94\x79\x12\xb5\x81\x1c\x5b\x9f\xdd\xf6\xfc\xa6\xc4\x5e\x10\xd9\xed\x8f\x12\x3b\xc2\x2c\xf5\x5d\xe4\x02\xd4\xbf\x74\xd1\x78\x2a\xf1\x7e\x6f\x58\x38\x75\x3d\x2e\xd9\x82\x53\x4d\x78\x33\x2b\xcf\xa5\x7b\xde\x4d\xd7\xf7\x8d\xb7\xd9\x10\x42\x43\xa7\xef\xf7\xa0\x32\xf0\x3e\xd1\x15\xdf\x61\xc4\xab\xc9\x9a\xb4\xb8\x11\x71\x42\x8c\x90\x18\x65\x0d\x31\xea\xcb\x1d\xa2\x25\xdb\x74\xb5\xf8\x6b\xba\x53\xdb\x1b\xc5\xea\xab\x87\xaa\xde\x6c\xc4\xb4\x7f\x19\x96\xa1\xa1\xf1\xac\x82\x20\x50\x0b\xba\x1b\xb7\x55\x62\xd2\x07\x86\xd6\xd3\x71\x48\x3a\xcf\x09\x1d\x93\x29\x13\xb9\xa9\x01\xb2\xa7\xa4\x0f\x7e\xd4\x26\x18\x89\x3c\x2b\x21\x62\xb5\xa8\x92\xf0\xa4\xdd\x30\x10\x92\x7d\x54\x83\x4d\x8b\x26\x66\x5b\x2c\x81\xd6\xeb\xe1\xd9\x1f\xfe\xf5\x6f\x7e\xf8\xfd\x3f\xff\xf0\x4f\xff\xf6\xc3\xdf\xff\xee\x8f\xff\xf8\xb7\xff\xf9\xef\xff\xf1\x87\xdf\xff\xdd\x0f\xff\xf2\xbb\x3f\xfe\xee\x1f\xce\x86\x70\xbe\x7f\x4f\x1c\xc1\xfa\x96\x0c\x9f\x8d\x7c\x22\x7e\x02\x9b\x9d\xf5\x81\xde\x61\x3f\x7f\x65\x9f\x30\xd1\xa1\x79\xda\x64\x6c\x4a\x12\xb7\x9e\xe8\x61\xb3\x69\x8b\xa4\x12\xf3\x56\x7d\x99\xac\x5d\xb9\xa4\xbb\xf7\xcb\xa5\x06\x6c\xe5\xf4\x86\x19\x42\x36\x1b\xb4\xf6\xcd\x1d\xc1\x52\xb7\xb6\xcf\x20\xbd\xdb\x3e\x84\x68\xc7\xde\xe1\xf5\x1e\x53\x8c\x43\xd4\xa1\xce\x1e\x79\x74\xe9\xb8\x05\xa2\xb3\x73\xa4\x7d\x3d\xcf\x71\xcf\x59\xbc\x63\x79\xda\xa8\x73\x02\x43\x84\xb7\x63\xbb\x0f\xe4\xa7\x1c\xc9\x16\x7c\x7b\x1c\x1d\x0b\xed\x3b\x92\x3b\x2c\x45\xa0\x0e\x9d\xca\x6e\xf6\xfc\x89\x89\x7b\x34\x6a\x1e\xbb\xef\x23\xfc\x0e\xee\x3e\xb7\x6f\x3d\xb6\x9e\xe8\x41\x07\x66\x1b\xb3\x40\x23\x02\x23\xaa\x31\x23\x83\x37\xd6\x16\x14\xb1\x7c\xe1\x99\x72\x3a\x9c\x19\xcd\xb8\x32\x9f\xad\xf4\x4d\x05\x34\x4c\xdb\x96\x82\x2a\x5f\x73\xf5\xa9\xc6\xe1\x31\x16\xc3\xf9\x81\x2c\x73\x3b\xdb\x3d\x3c\x83\x57\x45\xbe\xd2\x5f\x80\x42\x84\x75\x6f\xfb\x35\x45\x39\x47\x83\x0a\xc6\x2e\x98\x84\x63\x31\x01\x81\x77\x21\x35\x65\x4b\x35\xf7\xcb\x4b\xcb\x85\x50\x68\x6e\x64\x4b\xfd\x71\x1a\x74\x5b\xf1\x03\x8c\x12\xce\x86\x34\xa3\x5e\x7e\xa7\xd4\x3a\x60\x34\x34\xc2\xac\xb5\x7f\x74\x5c\xb6\x3d\xc2\x17\x87\xfd\xc1\xc6\x21\xec\x4d\xe0\xf6\x67\x70\x7b\x53\xb8\xfa\xf4\xe0\xed\x0c\x67\xd3\x3a\x0c\x9d\x04\x39\xf8\x1d\xb1\x7d\xa6\xad\xf1\xb0\xb4\x07\x8f\x51\x17\x14\x4d\xf0\xf9\x5d\x34\x00\x4d\xd9\xc6\xc0\x7d\x8a\x1d\x5c\x4c\xc2\x7d\x4f\x34\xc6\x12\x41\x89\xc5\xe8\x4f\x97\xd3\x29\xaf\x63\xc4\xd5\x2f\xa1\x06\xbf\x8e\x80\xdc\xd3\x60\xf7\xb3\x65\x07\x3f\x5a\xe2\x3e\xe3\x7a\x6c\xa2\xee\xe5\x93\x9b\x37\x9f\x72\x43\xc3\x56\x9a\xe1\x78\x30\xe1\x4d\xf7\x4c\xb7\x36\x11\x17\x44\xb4\x18\x80\xac\xef\xcc\xb3\xfb\x2a\x1d\x39\x74\xbb\x1f\xc4\x3b\xf6\xe6\x65\xd7\x1d\xca\x37\xcb\xb1\x63\x00\xc4\x01\x35\xf9\x92\xbf\x59\x8e\xe5\xa4\x16\x63\x1e\x6f\xdd\x99\x24\xd9\xe9\xdd\x9a\x42\x27\xaf\xab\x0f\x4a\xeb\xfa\xce\xff\x62\x87\x06\xc2\x5f\xc8\x99\x5e\x6c\x72\x90\xb3\x88\x43\xd0\xcf\xec\x46\xdc\xbb\x93\xe8\xb1\xc1\x7a\xdd\xfa\x88\x05\xbb\xe5\xde\x86\x1d\xfb\x99\x18\x1c\x72\xc4\x67\x62\x1a\xc8\x07\xaf\xb3\xb4\xbe\x11\x9c\x3a\x02\xd3\x25\x81\xc4\xdf\xeb\x9e\xcf\xc3\xec\x87\x40\xf5\x08\xff\xf3\xbe\x12\xd3\xac\xeb\xe0\xfd\x54\x62\x52\xb7\xc7\x17\xd0\x5e\x33\xde\xea\x70\xcb\x3e\xe9\xd3\x30\xb8\x51\x5e\x0f\xd2\x57\x03\xba\xdd\x7e\x55\x74\xf6\xf1\x52\x6e\x4d\x8f\xad\x02\x9f\x53\xbf\x1d\xe3\xed\xb2\x77\x81\xe0\xf4\x6f\xc7\x78\x70\x5c\xb5\xf0\x61\xe2\x7a\xcb\x03\x80\xb3\x36\x75\x1b\xd2\xee\x7c\x0a\x86\x66\xda\x4e\x33\xf4\xcd\xe3\x05\xba\x91\x64\xeb\x75\x9b\xec\xdd\x09\x97\x85\x9c\x91\x00\x7c\x21\x67\xfd\xf1\xed\xdd\xc2\xcf\xae\x4b\x95\x7b\xca\xc7\x17\x72\x96\x3e\xd3\x7a\xaf\xbb\xe0\xb1\x2b\x43\x6f\x79\xb9\xe7\x86\x26\x91\x87\x82\xa0\x4d\xc5\x5a\x07\xbf\x6c\xc7\x29\xf5\x82\x8f\xa8\x58\xc3\x18\x1a\x94\xe3\xdf\x60\x25\x06\x85\x21\xa5\xdb\x2f\xfb\x35\x8e\x17\xac\x58\x99\xd4\x0b\x26\xe4\x6c\x65\x86\xf9\xa8\xdf\x12\x43\x06\x98\xff\x40\xf4\x50\x00\x16\x52\x60\xf6\x8d\xee\x0c\x91\x50\xeb\xc5\xbb\x27\x49\x86\xf3\x92\x45\x3f\x80\x62\xd2\xd2\x60\x2e\x3d\xd0\x1d\x97\xb4\x74\x6e\xf1\xa0\x99\x1f\x97\xe0\x4f\x4c\x13\xe1\x0c\x0d\xd8\xe4\x94\xe2\x1a\x5c\x11\x85\xaa\xed\xbb\x13\x8a\x6b\xbc\xd1\x07\xbe\xfd\x80\xcb\xff\xef\xfe\xf6\x43\x83\xdd\xae\x15\xd1\xab\x80\xae\x97\xe3\x5c\xc8\x39\xaf\x4f\xa9\x9d\xe9\xfe\xf0\xc3\xb1\xd6\xc7\xa7\x7c\xf9\xc1\x56\x74\xec\x1b\x36\xda\xe2\xa1\x97\xfc\xde\xad\x4e\x2b\x09\xef\x13\x10\x41\x70\x84\x41\x13\x7a\x75\x1b\xad\xa3\xe0\x17\x6b\x3c\xe3\x87\x74\xc6\x6e\x95\xc6\x76\x91\x46\xab\x24\xd6\x09\x14\x7b\x32\x3a\x4b\x32\x3a\x45\x2e\xb9\x52\x1e\x22\x5b\x25\x13\xa7\x7f\xd7\x01\x17\xd6\x97\x5d\xee\x13\xfb\x2e\xa9\xdc\x43\x95\x4e\xd9\x77\xdc\x77\x1d\xac\x5e\xf8\x93\x7d\xc1\xa1\x07\xe5\x23\x54\x15\xf4\xeb\x2a\xac\xa4\x3b\x42\x0d\xf1\xba\xb6\xf3\xed\xa8\xa3\xe1\x10\x76\x35\xd2\x70\x08\x1b\x0f\xba\x1d\x9c\xea\x72\x7a\x3b\xf8\x8b\x2f\x76\xdb\x52\x4c\x69\xea\xaf\x47\x7e\x10\x74\x49\xec\x43\xd4\x33\x8d\x4d\xf3\xee\x02\xb1\xb5\xbc\x16\x91\x8e\xd4\x68\xe7\x77\x29\x8e\x55\xca\x5d\x39\xcb\xfd\x5a\xb9\xfb\x33\x4e\x3e\x0f\x93\x6e\xee\x56\xcd\x94\x3e\xdb\xa3\x99\xdb\xb7\x6f\xdc\xff\xf0\x10\x95\xf0\x50\x84\x44\xbb\x0e\x3d\xca\x1a\xb7\xda\x4a\xfa\x17\x72\xb6\xad\xab\xcf\x35\xae\x3f\x8d\xc2\x3e\xd6\xc6\x3a\x94\x38\xb4\x24\xef\x55\xd0\x6e\x22\x7d\x22\x1c\xb8\xc4\xdb\x86\xff\x1a\x00\xf7\xb8\x84\x65\x28\x6b\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27175, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x0, 0xd4, 0x1c, 0x80, 0xa, 0x77, 0x2f, 0xdd, 0x68, 0x7f, 0x75, 0xe4, 0x4e, 0xf7, 0xc4, 0x43, 0x77, 0xc4, 0x6a, 0x64, 0xf5, 0x4d, 0x6e, 0x3f, 0xee, 0x97, 0x60, 0x71, 0x8f, 0x33, 0x6c, 0xdd}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27432, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xa3, 0x2c, 0x4b, 0x32, 0xad, 0xea, 0x4e, 0x9b, 0x36, 0xab, 0x83, 0x6f, 0xfc, 0xac, 0xcf, 0xc5, 0x40, 0x8b, 0xe5, 0xd7, 0x9e, 0x61, 0x3e, 0x8b, 0x24, 0x62, 0xb5, 0xda, 0x12, 0x9e, 0xb9, 0x79}}
 	return a, nil
 }
 
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 511beed..adb3265 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -72,6 +72,16 @@ type Service struct {
 	// including its protobuf package: "acme.echo.v1.Echo"
 	FullName string
 	Methods  []*ServiceMethod
+	// Imported holds the packages, other than the one of the service, which
+	// define request and response types, such as google.protobuf.Empty
+	Imported []*ImportedPackage
+}
+
+// ImportedPackage is a Go package which defines types of a service's methods.
+type ImportedPackage struct {
+	Name  string
+	Path  string
+	Types []string
 }
 
 type ServiceMethod struct {
@@ -290,6 +300,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				}
 				rv.Service = nsvc
 				setPBNames(nsvc, rv.PkgName, fileAst)
+				setImported(nsvc, t, fileAst)
 			}
 		}
 
@@ -363,6 +374,9 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			f.Type.Oneof = oneofs[f.Type.Name]
 		}
 	}
+	if err := checkImported(&rv); err != nil {
+		return nil, err
+	}
 	resolveTypes(&rv)
 	err := consolidateHTTP(&rv, protoFiles)
 	if err != nil {
@@ -414,6 +428,75 @@ func setPBNames(svc *Service, pkgName string, file *ast.File) {
 	})
 }
 
+// setImported collects the types of the methods of svc, as declared by the
+// interface t in file, which other packages define.
+func setImported(svc *Service, t *ast.TypeSpec, file *ast.File) {
+	imports := map[string]string{}
+	for _, spec := range file.Imports {
+		if spec.Name != nil {
+			imports[spec.Name.Name] = strings.Trim(spec.Path.Value, `"`)
+		}
+	}
+	methods := map[string]bool{}
+	for _, m := range svc.Methods {
+		methods[m.Name] = true
+	}
+	packages := map[string]*ImportedPackage{}
+	types := map[string]bool{}
+	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
+		if len(m.Names) == 0 || !methods[m.Names[0].Name] {
+			continue
+		}
+		ast.Inspect(m.Type, func(n ast.Node) bool {
+			star, ok := n.(*ast.StarExpr)
+			if !ok {
+				return true
+			}
+			sel, ok := star.X.(*ast.SelectorExpr)
+			if !ok {
+				return true
+			}
+			name, ok := sel.X.(*ast.Ident)
+			if !ok || types[name.Name+"."+sel.Sel.Name] {
+				return true
+			}
+			types[name.Name+"."+sel.Sel.Name] = true
+			p := packages[name.Name]
+			if p == nil {
+				p = &ImportedPackage{Name: name.Name, Path: imports[name.Name]}
+				packages[name.Name] = p
+				svc.Imported = append(svc.Imported, p)
+			}
+			p.Types = append(p.Types, sel.Sel.Name)
+			return true
+		})
+	}
+}
+
+// checkImported returns an error if a type of a method which another package
+// defines has the name of another type, as methods refer to types by name only.
+func checkImported(sd *Svcdef) error {
+	if sd.Service == nil {
+		return nil
+	}
+	names := map[string]bool{}
+	for _, m := range sd.Messages {
+		names[m.Name] = true
+	}
+	for _, e := range sd.Enums {
+		names[e.Name] = true
+	}
+	for _, p := range sd.Service.Imported {
+		for _, name := range p.Types {
+			if names[name] {
+				return errors.Errorf("type %q of package %q has the same name as another type of service %q", name, p.Path, sd.Service.Name)
+			}
+			names[name] = true
+		}
+	}
+	return nil
+}
+
 // isStream reports whether t is the interface of the stream of a streaming
 // method rather than that of a service.
 func isStream(t *ast.TypeSpec) bool {
-- 
2.43.0


From de6d3b03d76c4ae1aa0e15526b1beb7eb62f03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:19 +0000
Subject: [PATCH 34/44] fix: keep the user's code in directories which are
 symlinks

A symlinked service directory, or one of its directories, was not read, so
that the files in it, the handlers among them, were generated as if for the
first time.
---
 cmd/baron/main.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 79b8a1b..c496b66 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -436,7 +436,17 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 
 	files := make(map[string]io.Reader)
 
-	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+	// the directories which generated files are in
+	generatedDirs := map[string]bool{
+		filepath.Join(serviceDir, handlersDirName):               true,
+		filepath.Join(serviceDir, serverDirName):                 true,
+		filepath.Join(serviceDir, cmdDirName):                    true,
+		filepath.Join(serviceDir, cmdDirName, svcName):           true,
+		filepath.Join(serviceDir, cmdDirName, svcName+"-client"): true,
+	}
+
+	var addFileToFiles filepath.WalkFunc
+	addFileToFiles = func(path string, info os.FileInfo, err error) error {
 		// a file which is not read would be generated anew and replaced
 		if err != nil {
 			return err
@@ -452,6 +462,15 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 				return filepath.SkipDir
 			}
 		}
+		// filepath.Walk does not follow a symlink, unless it ends in a separator
+		if info.Mode()&os.ModeSymlink != 0 {
+			if target, err := os.Stat(path); err == nil && target.IsDir() {
+				if !generatedDirs[path] {
+					return nil
+				}
+				return filepath.Walk(path+string(filepath.Separator), addFileToFiles)
+			}
+		}
 		file, ioErr := os.Open(path)
 		if ioErr != nil {
 			return errors.Wrapf(ioErr, "cannot read file: %v", path)
@@ -476,7 +495,7 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 		return nil
 	}
 
-	err := filepath.Walk(serviceDir, addFileToFiles)
+	err := filepath.Walk(serviceDir+string(filepath.Separator), addFileToFiles)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot fully walk directory %v", serviceDir)
 	}
-- 
2.43.0


From bb8feec24eb017bf124804d751e344b0434f95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 35/44] fix: do not add the handler of an rpc named NewService
 on every run

---
 gengokit/service/services.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index ac265e6..a6eba45 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -165,7 +165,9 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		case *ast.FuncDecl:
 			name := x.Name.Name
 			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			// unless NewService is the handler of an rpc
+			isHandler := recvTypeToString(x.Recv) == "*"+svcName+"Service"
+			if name == ignoredFunc && !isHandler || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0


From 7af81f1f8c5b503fa60bf0d53da03fdb52d1f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 36/44] fix: report what a run did to the files

Removed handlers and changed types were reported as no change, files created
first as overridden, files not generated as if they were, and the
.pb.baron.go file by another name.
---
 cmd/baron/main.go            | 20 ++++++++++++++++----
 gengokit/generator/gen.go    |  4 +---
 gengokit/service/services.go | 23 +++++++++++++++--------
 3 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index c496b66..dc405b7 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -197,13 +197,25 @@ func parseInput() (*config.Config, error) {
 	log.WithField("PB Package", cfg.PBPackage).Debug()
 	log.WithField("PB Path", cfg.PBPath).Debug()
 
+	// 输出文件
+	outFiles := []string{}
+	existed := map[string]bool{}
+	for _, p := range cfg.DefPaths {
+		outFiles = append(outFiles, parsesvcname.GetPBFileName(p, cfg.PBPath), parsesvcname.GetGRPCPBFileName(p, cfg.PBPath))
+	}
+	for _, f := range outFiles {
+		existed[f] = pkg.FileExists(f)
+	}
 	if err := execprotoc.GeneratePBDotGo(cfg.DefPaths, cfg.GoPath, cfg.PBPath); err != nil {
 		return nil, errors.Wrap(err, "cannot create .pb.go files")
 	}
-	// 输出文件
-	for _, p := range cfg.DefPaths {
-		log.Infof("*> %s", parsesvcname.GetPBFileName(p, cfg.PBPath))
-		log.Infof("*> %s", parsesvcname.GetGRPCPBFileName(p, cfg.PBPath))
+	for _, f := range outFiles {
+		switch {
+		case existed[f]:
+			log.Infof("*> %s", f)
+		case pkg.FileExists(f):
+			log.Infof("-> %s", f)
+		}
 	}
 
 	// Service Path
diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index 2bb3878..eaca1d9 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -74,6 +74,7 @@ func GenerateBaronFile(sd *svcdef.Svcdef, conf gengokit.Config, baronPath string
 	if err != nil {
 		return errors.Wrap(err, "cannot render baron template")
 	}
+	responseInfo(nil, baronPath)
 	err = WriteGenFile(file, baronPath)
 	if err != nil {
 		log.Fatal(errors.Wrap(err, "cannot to write output"))
@@ -155,9 +156,6 @@ func generateResponseFile(templFP string, data *gengokit.Data, prevFile io.Reade
 		if genCode, err = applyTemplateFromPath(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render baron template: %s", templFP)
 		}
-		actualFP = strings.TrimPrefix(actualFP, "baron")
-		actualFP = filepath.Join(data.Config.PBPath, actualFP)
-		responseInfo(nil, actualFP)
 	default:
 		if genCode, err = applyTemplateFromPath(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render template: %s", templFP)
diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index a6eba45..0ee0f2f 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -61,6 +61,8 @@ type handler struct {
 	service *svcdef.Service
 	mMap    methodMap
 	ast     *ast.File
+	// modified is whether Render changed the previous version
+	modified bool
 }
 
 type handlerData struct {
@@ -81,12 +83,23 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 	// Remove exported methods not defined in service definition
 	// and remove methods defined in the previous file from methodMap
 	log.WithField("Service Methods", len(h.mMap)).Trace("Before prune")
+	before, err := h.buffer()
+	if err != nil {
+		return nil, err
+	}
 	// Lowercase the service name before pruning because the templates all
 	// lowercase the service name when generating code to ensure Identifiers
 	// incorporating the service name remain unexported.
 	h.ast.Decls = h.mMap.pruneDecls(h.ast.Decls, strings.ToLower(data.Service.Name))
 	log.WithField("Service Methods", len(h.mMap)).Trace("After prune")
 
+	// get the code out of the ast
+	code, err := h.buffer()
+	if err != nil {
+		return nil, err
+	}
+	h.modified = len(h.mMap) > 0 || !bytes.Equal(before.Bytes(), code.Bytes())
+
 	// create a new handlerData, and add all methods not defined in the previous file
 	ex := handlerData{
 		ServiceName: data.Service.Name,
@@ -94,7 +107,7 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 
 	// If there are no methods to template then exit early
 	if len(h.mMap) == 0 {
-		return h.buffer()
+		return code, nil
 	}
 
 	for _, v := range h.service.Methods {
@@ -106,12 +119,6 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		ex.Methods = append(ex.Methods, v)
 	}
 
-	// get the code out of the ast
-	code, err := h.buffer()
-	if err != nil {
-		return nil, err
-	}
-
 	// render the server for all methods not already defined
 	newCode, err := applyServiceMethodsTempl(ex)
 
@@ -144,7 +151,7 @@ func (h *handler) IsFirst() bool {
 
 // IsModified 代码是否更改
 func (h *handler) IsModified() bool {
-	return len(h.mMap) > 0
+	return h.modified
 }
 
 // pruneDecls constructs a new []ast.Decls with the exported funcs in decls
-- 
2.43.0


From 5f1a8eade3ef65685296751252211f738645ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 37/44] fix: read the types of an rpc which are named in full,
 with a leading dot

---
 svcdef/svcparse/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index e0c164a..c47f12d 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -348,7 +348,8 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
-	if tk != IDENT {
+	// A type may be named in full, as in ".google.protobuf.Struct"
+	if tk != IDENT && val != "." {
 		return nil, parserErr{
 			expected: "a string identifier in first argument to method",
 			line:     lex.GetLineNumber(),
@@ -399,7 +400,8 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
-	if tk != IDENT {
+	// A type may be named in full, as in ".google.protobuf.Struct"
+	if tk != IDENT && val != "." {
 		return nil, parserErr{
 			expected: "a string identifier in return argument to method",
 			line:     lex.GetLineNumber(),
-- 
2.43.0


From 2a71c9e02e0d0ebc3ff7c70920a23278b99bdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 38/44] fix: find the service of the definition in
 svcdef.NewFromString

---
 svcdef/newfromstring.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/svcdef/newfromstring.go b/svcdef/newfromstring.go
index 1b023cf..925855d 100644
--- a/svcdef/newfromstring.go
+++ b/svcdef/newfromstring.go
@@ -16,6 +16,7 @@ import (
 func NewFromString(def string, gopath []string) (*Svcdef, error) {
 	const defFileName = "definition.proto"
 	const goFileName = "definition.pb.go"
+	const grpcFileName = "definition_grpc.pb.go"
 
 	// Write our proto file to a directory
 	protoDir, err := ioutil.TempDir("", "baronsvcdef")
@@ -47,6 +48,16 @@ func NewFromString(def string, gopath []string) (*Svcdef, error) {
 	pbgoMap := map[string]io.Reader{
 		"/tmp/doesntexist.pb.go": strings.NewReader(pbgo),
 	}
+
+	// Only a definition with a service has a _grpc.pb.go file
+	grpcPath := filepath.Join(protoDir, grpcFileName)
+	buf, err = ioutil.ReadFile(grpcPath)
+	if err == nil {
+		pbgoMap["/tmp/doesntexist_grpc.pb.go"] = strings.NewReader(string(buf))
+	} else if !os.IsNotExist(err) {
+		return nil, errors.Wrapf(err, "cannot read grpc.pb.go file %q", grpcPath)
+	}
+
 	pFileMap := map[string]io.Reader{
 		"/tmp/doesntexist.proto": strings.NewReader(def),
 	}
-- 
2.43.0


From 537174d63061c14073003517874d87ce7d5203e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:54 +0000
Subject: [PATCH 39/44] fix: accept a service whose name begins with Unsafe

---
 svcdef/svcdef.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index adb3265..27b649c 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -257,7 +257,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			switch t.Type.(type) {
 			case *ast.InterfaceType:
 				// Exclude Unsave{NAME}Server interface
-				if strings.HasPrefix(t.Name.Name, "Unsafe") {
+				if isUnsafeServer(t) {
 					break
 				}
 				// Exclude {NAME}_{METHOD}Server interface of a streaming method
@@ -497,6 +497,20 @@ func checkImported(sd *Svcdef) error {
 	return nil
 }
 
+// isUnsafeServer reports whether t is the interface Unsafe{NAME}Server of a
+// service rather than the {NAME}Server of one whose own name begins like that.
+func isUnsafeServer(t *ast.TypeSpec) bool {
+	if !strings.HasPrefix(t.Name.Name, "Unsafe") {
+		return false
+	}
+	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
+		if len(m.Names) > 0 && m.Names[0].Name == "mustEmbedUnimplemented"+t.Name.Name {
+			return false
+		}
+	}
+	return true
+}
+
 // isStream reports whether t is the interface of the stream of a streaming
 // method rather than that of a service.
 func isStream(t *ast.TypeSpec) bool {
-- 
2.43.0


From 0f2347c1e05a4b7f5f6e6e5b42b99c24498a4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:34 +0000
Subject: [PATCH 40/44] fix: take the import path of a directory from its own
 module

Where a directory has no Go files yet, packages.Load compares the names of
the directories of modules by prefix, in random order: beside a replaced
module ../api, a service in api-server got imports of example.com/api-server
at times. A service or definition outside the module got its absolute path for
an import path, and a run which could not succeed ended well.
---
 cmd/baron/main.go | 82 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index dc405b7..cb09246 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -187,12 +188,11 @@ func parseInput() (*config.Config, error) {
 	log.WithField("DefPaths", cfg.DefPaths).Debug()
 
 	protoDir := filepath.Dir(cfg.DefPaths[0])
-	p, err := packages.Load(nil, protoDir) // 获取导入包
-	if err != nil || len(p) == 0 {
+	cfg.PBPackage, err = importPath(protoDir) // 获取导入包
+	if err != nil {
 		return nil, errors.Wrap(err, "proto files not found in importable go package")
 	}
 
-	cfg.PBPackage = p[0].PkgPath
 	cfg.PBPath = protoDir
 	log.WithField("PB Package", cfg.PBPackage).Debug()
 	log.WithField("PB Path", cfg.PBPath).Debug()
@@ -266,18 +266,13 @@ func parseInput() (*config.Config, error) {
 		return nil, errors.Wrapf(err, "cannot create svcPath directory: %s", svcPath)
 	}
 
-	p, err = packages.Load(nil, svcPath)
-	if err != nil || len(p) == 0 {
+	cfg.ServicePackage, err = importPath(svcPath)
+	if err != nil {
 		return nil, errors.Wrap(err, "generated service not found in importable go package")
 	}
-
-	log.WithField("Service Packages", p).Debug()
-
-	cfg.ServicePackage = p[0].PkgPath
 	cfg.ServicePath = svcPath
 
 	log.WithField("Service Package", cfg.ServicePackage).Debug()
-	log.WithField("Service PkgName", p[0].Name).Debug()
 	log.WithField("Service Path", cfg.ServicePath).Debug()
 
 	// PrevGen
@@ -289,6 +284,73 @@ func parseInput() (*config.Config, error) {
 	return &cfg, nil
 }
 
+// importPath 返回目录的导入路径
+func importPath(dir string) (string, error) {
+	p, err := packages.Load(nil, dir)
+	if err != nil {
+		return "", err
+	}
+	if len(p) == 0 {
+		return "", errors.Errorf("no package found for directory %s", dir)
+	}
+	pkgPath := p[0].PkgPath
+	if len(p[0].GoFiles) == 0 {
+		// 目录中还没有 Go 文件时, packages 只比较目录名前缀, 不能确定所属模块
+		if out, err := listModules(); err == nil {
+			if pkgPath, err = modulePackage(dir, out); err != nil {
+				return "", err
+			}
+		}
+	}
+	// 不属于任何模块的目录不能被导入
+	if pkgPath == "" || filepath.IsAbs(pkgPath) {
+		return "", errors.Errorf("directory %s is outside the current module", dir)
+	}
+	return pkgPath, nil
+}
+
+// listModules 返回当前模块及其依赖, 每行为模块路径与目录
+func listModules() (string, error) {
+	const format = "{{.Path}}\t{{.Dir}}"
+	out, err := exec.Command("go", "list", "-m", "-f", format, "all").Output()
+	if err != nil {
+		// 依赖可能尚不可用
+		out, err = exec.Command("go", "list", "-m", "-f", format).Output()
+	}
+	return string(out), err
+}
+
+// modulePackage 返回目录在其所属模块中的导入路径
+func modulePackage(dir, modules string) (string, error) {
+	root := dir
+	for !pkg.FileExists(filepath.Join(root, "go.mod")) {
+		if root == filepath.Dir(root) {
+			return "", nil
+		}
+		root = filepath.Dir(root)
+	}
+	rootInfo, err := os.Stat(root)
+	if err != nil {
+		return "", err
+	}
+	for _, m := range strings.Split(modules, "\n") {
+		fields := strings.SplitN(m, "\t", 2)
+		if len(fields) < 2 || fields[1] == "" {
+			continue
+		}
+		info, err := os.Stat(strings.TrimRight(fields[1], "\r"))
+		if err != nil || !os.SameFile(info, rootInfo) {
+			continue
+		}
+		rel, err := filepath.Rel(root, dir)
+		if err != nil {
+			return "", err
+		}
+		return path.Join(fields[0], filepath.ToSlash(rel)), nil
+	}
+	return "", nil
+}
+
 // parseSVCOut 解析服务输出目录
 // 如果是相对路径转化为绝对路径
 // 否则使用 GOPATH + svcOut 路径
-- 
2.43.0


From 61703aa7496c3ef75f814eb85b12a397c102333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:52 +0000
Subject: [PATCH 41/44] fix: read of the service directory only the files which
 are generated

Every file in it was opened: an editor's lock file (a dangling symlink such as
.#service.go), a socket or a file of another user made every regeneration
fail, and a named pipe made it wait for ever.
---
 cmd/baron/main.go         | 14 +++++++++-----
 gengokit/generator/gen.go | 11 +++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index cb09246..5254c5a 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -510,6 +510,7 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 
 	files := make(map[string]io.Reader)
 
+	generatedPaths := gengokit.GeneratedPaths(svcName)
 	// the directories which generated files are in
 	generatedDirs := map[string]bool{
 		filepath.Join(serviceDir, handlersDirName):               true,
@@ -545,11 +546,6 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 				return filepath.Walk(path+string(filepath.Separator), addFileToFiles)
 			}
 		}
-		file, ioErr := os.Open(path)
-		if ioErr != nil {
-			return errors.Wrapf(ioErr, "cannot read file: %v", path)
-		}
-
 		// trim the prefix of the path to the proto files from the full path to the file
 		relPath, err := filepath.Rel(serviceDir, path)
 		if err != nil {
@@ -563,6 +559,14 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 		if relPath == "server/server.go" {
 			return nil
 		}
+		// other files are not read, they may be of any kind
+		if !generatedPaths[relPath] {
+			return nil
+		}
+		file, ioErr := os.Open(path)
+		if ioErr != nil {
+			return errors.Wrapf(ioErr, "cannot read file: %v", path)
+		}
 		log.Tracef("[prev] %s", filepath.ToSlash(filepath.Join(serviceDir, relPath)))
 		files[relPath] = file
 
diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index eaca1d9..ec28a0f 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -60,6 +60,17 @@ func GenerateGokit(sd *svcdef.Svcdef, conf gengokit.Config) (map[string]io.Reade
 	return codeGenFiles, nil
 }
 
+// GeneratedPaths 返回服务目录中自动生成文件的相对路径
+func GeneratedPaths(svcName string) map[string]bool {
+	paths := make(map[string]bool)
+	for _, templPath := range templFiles.AssetNames() {
+		if !service.IsExcludedPath(templPath) {
+			paths[templatePathToActual(templPath, svcName)] = true
+		}
+	}
+	return paths
+}
+
 // GenerateBaronFile returns a gokit service generated from a service definition (svcdef),
 // the package to the root of the generated service goPackage, the package
 // to the .pb.baron.go service struct files
-- 
2.43.0


From 05372f064eaf79852ad487632ffb8d91b6143c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:31 +0000
Subject: [PATCH 42/44] fix: refuse annotations of which only a part would be
 read

---
 svcdef/svcparse/parser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index c47f12d..d50bbb7 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -61,7 +61,8 @@ func (pe parserErr) Error() string {
 func fastForwardTill(lex *SvcLexer, delim string) error {
 	for {
 		tk, val := lex.GetTokenIgnoreWhitespace()
-		if tk == EOF || tk == ILLEGAL || (tk == SYMBOL && val == ";") {
+		// A value in angle brackets would be passed over as well
+		if tk == EOF || tk == ILLEGAL || (tk == SYMBOL && (val == ";" || val == "<")) {
 			return fmt.Errorf("in fastForwardTill found token of type '%v' and val '%v'", tk, val)
 		} else if val == delim {
 			return nil
@@ -120,8 +121,14 @@ func skipOtherOptions(lex *SvcLexer) error {
 }
 
 // isHTTPOption reads the name of an option and reports whether it is that of
-// the http annotation.
+// the http annotation, or of a part of it.
 func isHTTPOption(lex *SvcLexer) bool {
+	name := optionName(lex)
+	return strings.HasPrefix(name, "(google.api.http)") || strings.HasPrefix(name, "(.google.api.http)")
+}
+
+// optionName reads the name of an option and the '=' following it.
+func optionName(lex *SvcLexer) string {
 	name := ""
 	for {
 		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
@@ -130,7 +137,7 @@ func isHTTPOption(lex *SvcLexer) bool {
 		}
 		name += val
 	}
-	return strings.HasPrefix(name, "(google.api.http)") || strings.HasPrefix(name, "(.google.api.http)")
+	return name
 }
 
 // Each of the following structs exists as a distillation of a corresponding
@@ -512,6 +519,14 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 
 	switch {
 	case val == "option":
+		// A part alone, as in "(google.api.http).custom", is no binding
+		if name := optionName(lex); !strings.HasSuffix(name, ")") {
+			return nil, parserErr{
+				expected: "the http annotation as a whole",
+				line:     lex.GetLineNumber(),
+				val:      name,
+			}
+		}
 		err := fastForwardTill(lex, "{")
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d14628536ed2829f1346bed2fbeb89fd2af3a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:19 +0000
Subject: [PATCH 43/44] fix: take a definition passed twice for one file

---
 cmd/baron/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 5254c5a..62e2d7b 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -479,11 +479,13 @@ func openFiles(paths []string) (map[string]io.Reader, error) {
 }
 
 // cleanProtofilePath returns the absolute filepath of a group of files
-// of the files, or an error if the files are not in the same directory
+// of the files, or an error if the files are not in the same directory.
+// A file which is passed more than once is returned once.
 func cleanProtofilePath(rawPaths []string) ([]string, error) {
 	var fullPaths []string
 
 	// Parsed passed file paths
+	passed := map[string]bool{}
 	for _, def := range rawPaths {
 		log.WithField("rawDefPath", def).Debug()
 		full, err := filepath.Abs(def)
@@ -492,6 +494,10 @@ func cleanProtofilePath(rawPaths []string) ([]string, error) {
 		}
 		log.WithField("fullDefPath", full)
 
+		if passed[full] {
+			continue
+		}
+		passed[full] = true
 		fullPaths = append(fullPaths, full)
 
 		if filepath.Dir(fullPaths[0]) != filepath.Dir(full) {
-- 
2.43.0


From 7a036fe80dd345b53b4e345de9a007d98fe3ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:05 +0000
Subject: [PATCH 44/44] fix: leave the request which an HTTP client sends as it
 is

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl        | 13 +++----------
 gengokit/template/template.go                       |  8 ++++----
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index b53ce41..1a7951a 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -703,15 +703,8 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 		r.URL.RawQuery = values.Encode()
 
 		{{- if ne $binding.Verb "get" }}
-		// Set the body parameters
-		toRet := request.(*{{GoName $binding.Parent.RequestType}})
-		{{- range $field := $binding.Fields -}}
-			{{if eq $field.Location "body"}}
-				{{/* Only set the fields which should be in the body, so all
-				others will be omitted due to emptiness */}}
-				toRet.{{$field.CamelName}} = req.{{$field.CamelName}}
-			{{end}}
-		{{- end }}
+		// Set the body parameters, without a change to the request, which may be
+		// in use elsewhere
 		marshaler := protojson.MarshalOptions{
 			AllowPartial:    true,
 			UseProtoNames:   true,
@@ -720,7 +713,7 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 		}
 		data, err := marshaler.Marshal(req)
 		if err != nil {
-			return errors.Wrapf(err, "couldn't encode body as json %v", toRet)
+			return errors.Wrapf(err, "couldn't encode body as json %v", req)
 		}
 		r.Body = ioutil.NopCloser(bytes.NewBuffer(data))
 		{{- end }}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 4939c8f..674ae4c 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.432kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.164kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.985kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xdc\x38\x76\xf8\x59\xfa\x14\x6f\x04\xcf\x8c\xd4\xbf\x6a\xd5\xfc\x02\x24\xd8\xb4\x51\x01\xec\x76\xcf\x8c\x77\xc7\x76\xaf\xdd\xde\x39\x18\x86\x97\x55\x62\x55\x71\x5b\x25\xc9\x22\xab\xbb\x6b\x2b\x75\xc9\x65\x03\x24\x40\x80\x9c\x72\x08\x16\x39\xe5\x1a\xe4\x9c\xcf\xb3\x13\xec\xb7\x08\x1e\xf9\x48\x51\x55\x52\xfd\xf1\xcc\x06\x41\x10\x23\x99\x2e\x89\xe4\xe3\xe3\xe3\xe3\xfb\x4f\xed\x70\x08\x97\x65\xc6\x61\xc6\x0b\x5e\x33\xc5\x33\x18\xaf\x60\xcc\xea\xb2\x48\xe1\xd9\x2b\x78\xf9\xea\x06\xae\x9e\x3d\xbf\x49\xc3\xe1\x10\x5e\xf3\x7a\x59\x14\xa2\x98\x99\x0e\x70\x2f\xf2\x1c\xca\x3b\x5e\xdf\xd7\x42\x71\x50\x73\x21\x61\x2a\x72\xae\x3b\xff\x8a\xd7\x52\x94\xc5\x05\xac\xd7\x29\xfd\xde\x6c\xbc\x06\x78\xc6\x14\xf7\x5b\xf1\x79\xb3\x09\xc3\x8a\x4d\x6e\xd9\x8c\x63\xcb\xb5\xf9\xf9\x92\x2d\x74\xcb\x70\x08\x37\x76\x0e\x98\x94\x85\x62\xa2\x90\xb0\xe0\x6a\x5e\x66\x12\x54\x09\x0b\x76\xcb\x41\x14\x99\xb8\x13\xd9\x92\xe5\xc0\x8b\xac\x2a\x45\xa1\x24\x4c\xeb\x72\x01\x92\xd7\x77\x62\xc2\xe5\x00\xd1\xa8\xf9\xc7\x25\x97\x0a\x58\x91\x41\xcd\x65\x55\x16\x92\x83\x5a\x55\x5c\x43\xc2\xae\xb8\xa2\x52\xf2\x06\xca\x00\x98\x84\x7b\x9e\xe7\xf8\x97\x17\x93\x32\xe3\xb5\x44\x00\x08\x2f\xe3\xf4\x3c\x2d\x6b\x1a\xa8\xa1\x0d\xf4\x0b\x86\x94\x9a\x42\xb9\xac\x41\x2e\xab\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x2d\x53\xa2\x2c\x10\xda\xb4\xac\x17\x4c\xc9\x34\x0c\xc5\x42\xf7\x88\xc3\x20\x1a\xaf\x14\x97\x51\x18\x44\xb8\x76\xfe\xa0\xf0\xa7\x46\x43\x14\xb3\xe1\x6f\x64\x59\xe0\x8b\xe9\x42\xbf\x17\xa5\xf9\xef\x50\x94\x4b\x25\x72\x7c\x28\xb8\x1a\xce\x95\xaa\xec\xef\x65\xad\x5f\x4b\x55\x4f\xca\xe2\x8e\x7e\x8a\x62\x26\xa3\x30\x0c\xa2\x99\x50\xf3\xe5\x38\x9d\x94\x8b\xe1\xac\x3c\xbf\x15\x6a\x88\xff\x6f\x69\x11\x85\x01\x2b\x56\xd5\x18\xa2\x59\x59\xce\x72\x9e\xce\xca\x9c\x15\xb3\xb4\xac\x67\xc3\xaa\x2e\x55\x39\x5e\x4e\x87\x7a\xfd\xc3\xdb\xa2\xbc\x2f\x86\xba\x77\x14\x06\xd9\xb2\xd6\x8b\x3c\x61\x68\x33\x24\x0a\x03\xbe\xa8\xd4\x29\xf3\x52\xff\x28\x0c\xa6\x82\xe7\xd9\x82\xc9\xdb\x13\x46\x7b\x63\xa2\x30\x90\xaa\x5e\x4e\xd4\x09\xc3\xed\x80\x28\x0c\x94\x58\x70\xa9\xd8\xa2\x3a\x61\xb8\x37\x26\x0a\x83\xfb\x9a\x55\x15\xaf\xe5\x09\x00\x9a\x21\xbb\x5b\x5a\x8b\x3c\x67\xc3\xc5\xf2\x21\x6a\xb7\x54\xb7\xb3\x21\xaf\xeb\xb2\xd6\x9c\xb6\x67\x22\xc7\x79\xfa\x8d\x65\xbf\x3d\x03\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x05\xfe\x11\xd2\xcb\xb2\x98\x8a\x59\x7a\xe3\x4e\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\xb4\x71\xc3\xb7\xe7\xa2\xd4\x7f\xd3\x19\x72\x38\x82\xe2\x45\xb6\xd9\x1c\x05\x75\x56\x57\x13\x0b\x75\x07\x4f\xdd\xd8\xdb\x32\x5c\x70\xc5\x32\xa6\xd8\xf6\xa4\x47\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\x34\xc4\xc6\x5f\x27\x4c\x81\xdd\xdb\x38\x22\xba\x35\x2b\x66\x1c\x1e\x55\x70\x31\x82\xf4\x8d\x91\xb9\xe9\x73\x2d\xc6\xb8\x5e\x88\xa0\xdf\xeb\xf5\xa3\x2a\x35\xc2\x1d\x22\xfd\x70\xcd\xd4\x7c\xb3\x69\x81\x4c\xc2\x30\xbc\x63\x35\xc4\x61\xf0\x01\x46\x30\x5d\xa8\xf4\x4d\x55\x8b\x42\x99\x67\x2d\x13\xd3\xcb\x72\x51\xb1\x9a\x9b\x57\x24\xd0\xd2\x27\xaa\x14\xe6\x4d\x8b\x72\xe9\x4b\x7e\x8f\x58\xf1\xda\x34\x1a\x01\x99\xbe\x2c\xab\xcb\xbc\x94\xcd\xdb\xf4\xb2\xac\x56\xe6\xc1\x9c\x87\xf4\xfb\x9a\x55\x61\x30\x1c\x02\xb1\x88\xe5\x6c\xa3\x36\xb0\xab\x96\x72\xe9\x93\x42\x8f\x6b\xe4\x56\xfa\x8c\x7e\xe2\x6b\x92\x48\xe9\x15\xfe\xc5\x17\x56\x4a\xa4\x6f\xf4\x0f\x7c\xe5\x9d\xfc\xf4\xc6\xfe\xc6\x86\xe6\x44\x63\x6f\x51\xcc\x7e\xc5\xf2\xa5\x5e\xb7\x27\xaa\xd2\xaf\xf1\xf7\x0b\x26\x6f\xc3\x24\x5c\xaf\x0f\xec\x87\xeb\xa0\xb0\xc3\xa3\x2a\xbd\xc1\xd5\x18\x5d\xbd\x5e\x3f\x52\x9b\x0d\x08\x09\x4c\x2f\x12\x75\x98\x9a\x73\xa8\xab\x89\x84\xfb\xb9\x98\xcc\xdb\x1b\x07\x19\x9f\x8a\x82\xcb\x34\xd4\xbd\x69\xf8\x08\x3a\x76\x3c\x35\x8d\xe1\x7a\xad\xd9\x9b\xfe\x84\xc3\xb3\xa3\xfe\xc1\x95\x55\xca\x60\x5f\x1d\xfe\x37\xd4\x26\xc4\xf3\x02\x18\x2a\xdc\x3b\x5e\x0f\x40\xa8\x2f\x25\x2c\x25\x9f\x2e\x73\xad\xa7\xa7\xcb\x62\x82\x7b\x26\x41\xcd\x99\x82\x82\xa3\x9a\x2e\xa1\xac\xb4\x71\x04\x25\x8e\xad\x78\x7d\x6e\xf5\x20\x02\x1c\x33\x29\x64\x0a\x5f\x97\x35\xf0\x07\xb6\xa8\x72\x3e\x80\x55\xb9\x84\x85\x98\xcd\x15\x54\x4c\xa2\x8d\xe0\x21\xac\x4a\x60\x6e\x22\x33\x4f\x55\x97\xd9\x72\xc2\x25\x82\x63\x85\xe6\xd7\xf4\x5b\x56\x64\x39\xe2\x78\x2f\xd4\x1c\x38\x9b\xcc\xc9\xd4\x81\xd8\xce\x9e\xc0\xbd\xa8\x79\x06\xcb\x0a\x91\x64\x20\x2b\x3e\x11\x53\x31\x81\x8a\xa9\x79\x0a\xf1\x73\x85\x00\x85\x84\xaa\x2e\xc7\x6c\x9c\xaf\x80\xc1\x42\x48\x65\xcc\x24\xc8\xb8\x14\xb3\x02\x87\x8a\xe2\xae\xbc\x45\x7b\x87\x03\x31\x88\x33\xab\x34\x8a\x1c\xe1\x34\x2b\x30\x1c\x0b\xa2\xa1\x64\x9a\x84\xc3\xa1\xa3\xee\x24\x17\xbc\x50\x6d\xea\xaa\x12\x26\x65\x9e\xf3\x89\xf2\x2c\xb4\x7c\x05\x93\xb2\x30\xe0\x78\xe6\xd9\x6b\xa2\xc0\x05\x21\x40\x29\x8a\x59\x6e\x2c\x33\x43\x2b\x81\x14\x5e\x70\xc4\xc3\xc7\x57\x14\x8a\xd7\x53\x36\xe1\x7d\x3b\x81\xc0\xdc\x64\xdd\x56\xe2\x12\x27\x6b\xcc\x32\x6d\x2d\xa1\xb8\xb8\xa4\xf5\x4c\xca\xc5\x58\x14\x9a\x4e\x0b\x42\xd1\xdb\xd8\x01\xd9\x92\x6a\x59\x17\x20\x14\xd2\x15\x11\x9c\xb0\x3c\xe7\x35\x30\x3c\x43\x84\x2c\x1d\x8f\x1d\x82\xae\xc3\xe0\x6d\xe1\xd6\x87\xc7\xc5\x9d\x57\x23\x26\x49\x6e\xb9\x23\x2b\x5a\x67\xfa\x85\xd9\x32\x14\xb1\xeb\xf5\x23\x41\x07\xcd\xce\x02\x00\x6e\xa9\xa9\x7d\x69\x8f\x5f\x68\xcc\x6b\xfb\x5a\x1e\x9e\x02\x19\x18\x62\x6f\x11\x09\x78\x93\xc6\x13\xf5\x00\x64\xa6\xa2\x6e\xc4\xbf\x03\x64\x98\xb3\xf5\xfa\x9b\x12\x11\x83\x47\x22\x7d\x6d\x6c\x70\x14\x38\x34\x2e\x81\x78\xab\x87\xb1\xcc\xbd\x2e\x03\x23\x8e\x13\x58\x87\x81\x35\xdc\xf5\x3b\xa4\x05\x4f\x3b\x56\x8e\xc8\xe0\xe4\x49\x18\xa0\xb6\xae\x6b\xf8\x6c\x04\x85\xc8\x11\x42\x40\xfb\x55\x88\x5c\x03\x09\x83\x4d\x68\xdf\x59\xe8\xe9\x41\x9c\x92\x01\xc2\x0b\x9d\x34\xd3\xc4\x7c\xc1\x6e\x3d\xf2\x84\xeb\xb5\x3e\xc8\x8f\x14\x47\x44\x53\x2d\xfa\x9c\xb2\xd4\x54\x7e\xa4\x78\x1f\xa1\x11\x56\xd7\xca\x24\x12\x5d\xf1\x4e\x36\x49\x76\xb7\x1b\xd6\x6e\x71\xb8\x7f\xdd\xbb\x64\x3d\x23\x77\xa2\xd6\x9b\x04\x62\x4b\x0c\xff\xb5\xa6\x98\xb7\x1d\x41\xcd\x3f\xe2\x42\x08\x42\x1a\x1f\xda\xed\x30\x08\xee\xdc\xde\x49\x7f\xef\x10\x35\x8d\x4a\x12\x06\x1d\xbb\xb6\xbb\x6d\xb8\x6f\xf6\xed\x9d\xd9\x8e\x60\xa3\x77\xc4\x5a\x12\xfe\xde\xa0\x2a\x7f\x92\xe7\x57\x0f\x13\x5e\x29\xad\x55\xa5\x11\xb1\x8e\x52\x5a\x9f\xa2\xbe\xa3\xb3\x69\x1b\x24\xe8\x6d\x64\x08\xc5\x33\x8a\x1c\xa9\x5f\x88\x2c\xcb\xf9\x3d\xab\x8d\x1b\xfc\x56\x5a\xc7\x18\xbd\xc0\xaa\xca\x57\x28\x62\x50\x6c\x2a\x04\xbe\x70\xbd\xb5\xdb\xc9\xef\x78\xbd\x72\xdb\x86\xe7\x05\x25\x08\xf9\xad\x1a\xde\xab\x0a\xb5\x06\xcb\xf3\xd5\xc0\xf5\x93\x30\x61\x05\x8c\xb9\xd6\x35\x3c\xc3\x61\xe3\x15\x14\x48\x76\x55\xe2\x7b\xfe\x30\xc9\x97\x19\xcf\x8c\x1b\x3c\xe6\x88\x02\xae\xb9\xe2\x59\xba\x43\x8d\xb8\xc1\x69\x00\xd1\x1b\xc5\xd4\x52\x46\x03\x88\xae\x45\x31\x8b\x12\x77\xee\xcf\x1c\x41\x92\xde\xf1\x0e\x43\x8f\x2a\x83\x06\x9b\x34\x4d\xa5\x36\x62\x34\xf3\x88\x82\x5e\x5f\x8c\x60\xc1\xaa\x77\xa6\xe9\xbd\x21\xff\x7a\x83\xec\xb5\x7d\x60\x3a\x4e\x4b\x10\x04\x91\xc7\x46\xd1\x05\xac\x37\x83\x30\xf0\x6d\xd4\x4d\x18\x06\xa8\xeb\x3f\x20\x2a\x08\xc6\x80\x74\x68\xe1\x4c\x62\x0a\x1f\x06\x50\xde\x62\xb3\x45\xec\x1d\x7f\x78\xff\x18\x3e\x2b\x6f\x11\xdb\x20\xa8\x58\x21\x26\x71\x63\x8f\x4e\xe3\xe8\xca\x82\xb0\xeb\x86\x2f\x3f\x97\x5f\x42\x56\x72\x09\x45\xa9\x80\x3f\x08\xa9\x1e\x83\xe4\xdc\xdf\x78\xe7\x54\x6b\x9f\x06\x91\x4a\x12\xe2\xe7\x8c\xe7\x5c\xf1\xd8\x62\xa0\xdb\x9a\x05\x88\x62\xd2\xa0\x6f\xfb\x68\xe4\xd0\x68\x15\xc5\xe4\x68\x92\x89\xa9\x06\x36\x1a\x41\x8b\x78\x1a\x56\x10\x74\x0a\x55\x18\x79\x6b\x88\x3b\xbb\xe0\x2a\x82\xcd\x36\xf1\xcd\x01\xfc\x8e\x8d\x79\xce\xb3\x86\x2f\x4c\x34\x69\xc6\x95\xe5\x62\xe4\x7c\x47\x47\xcd\xcc\xf7\x73\x5e\xb8\xd6\xd2\x63\x5c\x02\x66\xf8\x6f\x60\xce\x1b\x1d\x89\xa5\xe9\x0c\x26\x44\xc5\x4c\x9c\x4b\x4c\xd0\xbc\xa9\xc5\x44\x1b\x5c\xcd\x32\xc8\xa4\xc5\xa1\x92\x17\x5d\x28\x90\x4e\xa7\xd1\xd6\xa2\x29\x6b\xd2\xe8\xbb\xab\xc2\xe3\x12\x1b\x56\x1e\xec\xca\xe3\x0e\x11\x1d\xf6\xad\xeb\x93\xa5\xd4\x0e\x52\x03\x5a\xa7\xa6\x78\xcd\x27\x5c\xdc\xa1\x90\xe2\x66\x89\x64\xe2\x3b\xc4\xe0\x0d\xe7\x0e\x8c\x07\x45\x37\x58\x93\x94\x10\xbe\x7a\x40\x44\x91\x37\x33\xae\x98\xc8\x25\x5a\xcc\xf6\x60\x21\x10\x6b\xf6\xb2\x5c\xa8\x55\xba\x4f\x98\xb4\xd6\x1e\x2f\x7e\x04\x45\xff\x4f\xe2\xfc\x6f\x94\x38\xad\x61\x03\x38\x49\x00\x1d\x1f\xb5\x39\xd6\x1d\xfd\xe6\xf5\xf5\x25\xae\x93\xd7\x27\xfb\xa3\x68\xda\x79\xc3\x31\x86\x2d\x1b\x03\xc1\xed\x14\xb0\x3b\x26\x72\x36\xce\xb9\x71\x25\x66\xaf\xaf\x2f\xa1\xc7\x41\xa0\x83\xd5\x86\xec\xbc\x46\xd9\x48\x89\x01\x94\xda\x9e\x90\x78\x32\x5a\x01\x2a\xcd\xe8\xbc\x36\xe6\x46\xd2\x37\x11\x6e\x97\xf4\x3a\x4a\xe4\x8e\x77\xef\xfb\x21\x21\x1f\x77\xb5\x3e\xe5\xd3\xb2\xe6\x31\x62\xfb\x82\x02\x6d\x37\x25\x59\xa4\xc9\x00\x77\x6d\x6b\x9e\x11\x1a\x53\xbc\xc8\xe2\xd6\x6b\xb7\x9e\x34\x4d\x13\x1d\xaa\x59\xaf\xe1\xa6\xfc\xae\xbc\xe7\x75\xc3\x88\x48\x2a\xdc\x5c\x6b\x2e\x7e\x81\x18\x61\x23\xaf\xd7\xe8\x3a\x1d\xe4\xde\xf5\xda\xc2\x74\x2c\x47\xde\xfa\x05\xb4\x57\xe7\x62\x4d\x31\xf2\xb5\xdb\x81\x2e\x66\x45\x2b\x25\x78\xa6\xb3\x08\x48\x06\xaf\x07\x19\xce\xba\xc3\x55\xd1\xd9\x81\xdc\x20\xec\xd1\x22\x48\x9a\xa6\x38\x0c\x49\xb8\x75\x06\x50\x1a\x37\xeb\xde\xf6\xaa\x9d\xdd\xde\xbd\xed\xce\x07\x30\x6a\xcf\x83\xf3\x27\xf0\x64\xfb\x68\x0d\xb0\x45\x6c\x7a\xef\x99\xfc\xc6\xd6\x20\x68\x3a\xc0\xe3\xa1\xaa\xca\x66\xd5\xc7\x2f\xf8\x20\xc6\xfa\xe8\xc5\x12\xce\x9a\xa9\x92\x06\xfc\x01\x0f\x19\x1d\xa8\x9f\xd6\x45\xfe\x80\x5e\x54\xd5\x72\xb2\xfa\x08\xaa\x17\xa3\x79\xcb\xf7\xbe\x4e\x74\x99\xab\x4f\xf4\x96\x89\xd0\xe6\x00\x1c\xa6\xf2\x70\x08\xfb\xce\x0a\x85\x2c\x2d\x6b\xe8\x68\x7a\x6a\x06\x50\x8f\xaf\x71\x9b\x74\x40\x09\xb3\x5f\xbc\x56\xd2\xc4\x9b\x48\xae\xee\xd0\xc8\xb9\xc5\x18\xf5\xc1\xa0\x56\x7d\x9e\x95\x0b\x26\x8a\x7d\x9d\x53\xb8\xae\xc5\x82\xd5\x22\x5f\xd9\x38\x98\x1f\x34\x33\x62\x7a\xdf\x3a\xe2\x0f\xbb\x3c\x82\x6b\x79\xcd\x3f\x36\x3c\xa9\xfd\x73\xef\xa9\x1d\x21\xd1\x1e\x39\x8d\x39\xc6\x23\x77\x3b\xf9\x71\xcf\x36\x5d\x15\x47\x6f\xd3\x5e\x89\xd5\xb9\x4f\x66\x84\xed\xd2\xb7\x51\x87\xb7\x80\xa6\xd0\x1b\xb6\x67\x5b\xab\x7c\x75\xd4\x3e\xed\x5d\x48\xd7\x46\x75\x85\x4c\xf6\xed\x94\xd4\x29\x13\x3b\xea\x88\x73\xe4\x6d\x96\xac\xba\x76\xeb\x5b\x9e\x63\xb6\x20\x34\x8c\xd6\xa9\x5d\xbb\xe5\xd0\x22\x03\x9b\xf0\x4a\x5f\x3c\x4b\xb6\x3b\x20\xbe\x28\x4d\x6f\x07\x70\xd7\x18\x84\x0b\x67\xc9\xde\xb5\x62\x35\x3a\x6f\xcf\xe1\x96\xaf\xf4\x76\x67\x68\xf2\x8e\x4b\x35\x47\x1a\xdb\x59\x28\xe3\x0d\xf1\x6d\x42\xde\x09\x76\xcd\x73\xc8\x71\xbf\x08\x0a\x23\x9f\x4c\xc7\x65\x2f\x59\x51\x16\x62\xc2\xf2\x6f\x39\xcb\x78\xfd\x0b\xbe\xb2\xae\x0b\x4e\x24\x4b\x8a\x16\x2b\xf2\x04\x2d\x88\xc9\x84\xdb\x20\x09\x17\x6a\xce\x6b\x9a\x19\xdb\x91\x14\x23\xb7\xd6\xef\x85\x9a\xeb\xf4\x0a\x92\x68\xa0\xd7\xfa\xee\xab\xf7\xc9\xc1\x8e\x3d\xd8\xc5\xb7\x49\x03\x81\x9c\x02\xda\xbe\x89\x7a\xd0\x1a\xd9\x1a\x86\xfb\xff\xe9\x7d\x34\x21\xe9\x93\x8d\xcd\x97\xfc\xde\x1b\x6d\xa6\xd7\xe9\x09\x8a\x31\xc1\x98\x4d\x6e\x71\x7b\x56\xf6\xcc\x98\x58\x3e\xae\xb5\xe0\x3a\x35\x92\xc2\x73\x85\xfb\x48\x59\x01\x62\x57\x31\x16\xe8\xd2\xd9\x2d\xa0\xa0\xb7\x2a\x21\x13\x2c\x37\x91\xf1\x9c\x29\x5e\xc3\x04\x93\x6c\xe8\xa3\x73\x1f\xa6\x61\xd0\x16\x76\x31\x36\x1b\x2d\x9a\x1a\x7c\x2f\xcb\xa2\xd8\x63\xb1\x9a\x4e\xd6\x62\x8d\x7b\x4c\x56\xff\xc8\xa1\xa1\xb0\x1d\x94\x0d\x76\x3d\x18\x3f\xc0\xda\x88\xb6\xe0\x8e\xd5\x5d\x12\xc5\xda\x73\xbb\x8e\x68\x18\xac\xbb\x8d\x47\x37\x64\xb4\x6b\x3e\x12\x31\x34\xd7\xe1\xfa\xad\xbf\xe9\xe1\xf4\xf5\x32\xcf\xad\x23\xd4\xb8\xa3\xd7\x4f\xfd\x77\x57\xc5\x01\xc3\xf2\x19\x3f\x64\x58\x1e\x90\x46\x26\xce\x16\x34\x06\x38\x3e\x26\x6e\xf1\xb1\x76\x23\x35\x75\xc9\x0a\x75\x82\xca\x4a\x31\xdb\x55\x1e\xb4\xc2\xe1\x9c\xec\x70\x87\xa9\x1d\x7b\x81\x69\x8e\x3d\x24\x1e\x34\xf3\x06\x1b\x2b\x32\x51\x54\xe2\xca\x81\xce\xc5\x8f\x37\x42\xf6\x68\xb7\x67\xfc\x18\xed\xb6\x5f\x5f\x1d\x6b\x84\x90\x26\xe9\xd1\x6e\xe6\x68\xd3\xd9\x7b\xc6\x4f\xd4\x6e\xb8\x98\xd7\x1a\x99\x23\xd5\x1b\x76\x75\xa6\x08\x2a\xdd\x93\x14\x5c\x95\xaf\xba\x34\x9c\xbf\x6d\x3f\xde\x28\xe9\xb7\x1d\xaf\x8a\x23\x6c\xc7\xc3\x1b\xe2\x99\x90\x7b\x76\x78\xaf\xed\xd8\xda\xb5\x7d\xeb\xe8\x36\x49\x68\x89\xc7\x6d\xd9\xa9\xd9\x9c\xfd\xb6\x23\x61\xa1\x75\xaa\xbc\x29\x7d\x73\xc4\x9c\x94\x2e\x79\x4e\xf3\xe0\x39\x31\x8c\xba\x07\x4a\x7c\xcb\x57\x12\xde\xbd\xb7\x31\xbe\x03\xf0\x8e\xca\x86\x2d\x32\x38\x3b\x64\x0a\x69\x55\x50\x31\x51\x37\x93\x87\x81\x8d\xf8\xdd\x36\x06\x92\x46\x6f\x4d\xe1\xaf\x3b\x1b\xed\x9b\xa8\x87\x54\xd3\x24\xbe\x4d\x52\x8a\x6c\x26\x8f\xc1\x46\xfd\x02\x03\xd8\x05\x3c\xf4\xa3\x31\x47\x5c\x7c\x0b\x85\x28\xc2\xd4\x6d\x2d\xdb\xeb\x6c\x91\x61\xdc\xcc\x2e\xe0\xe7\xa5\x28\xe2\xb3\x45\x36\x68\x5e\x5d\xe3\x98\x58\x8f\xc4\xa8\x49\x62\xc1\x11\x65\xd0\x36\xa1\xa0\xd9\x69\x15\x1a\xdf\xde\xdc\x5c\x93\xb7\x60\xdf\x1d\xfe\x37\x0c\x43\x9d\xa3\x37\x54\x2e\x34\x7b\xc1\x08\x22\x56\x55\xb9\x98\xe8\x1a\x1a\x5d\xe9\xf8\x18\x26\x73\x56\x4b\xae\x46\x4b\x35\x3d\xff\x59\xe4\x22\x69\x38\x2b\xb9\xb3\x94\x8a\x47\xc6\x9a\xd3\x1b\x7d\x66\x0f\x47\xd8\x10\x58\x59\x40\x55\x73\x53\xcf\x92\xe9\x82\x0a\x49\x67\x6e\x6b\x9a\x83\x71\xb5\x76\xf5\x51\x3b\xae\xe6\x57\x7a\x58\x8b\x44\x4c\x21\xd5\xf0\xb5\xf1\xee\xc9\xad\xad\xd8\x0e\xf2\xce\xbb\xf7\xfd\xd0\xf5\xfe\x77\x35\x53\xb0\xcd\xcc\x81\xd6\xa9\x6c\xc5\xda\xba\x07\x5d\xa1\x24\x37\xe2\xa6\x8e\xb9\xf7\xd0\x3f\xe4\xc9\x54\xf1\x3a\xde\x6e\x51\x97\xcd\xd6\xc6\xde\x36\x27\x1a\xd0\xee\x2a\x8f\x8a\xf4\x51\xc8\x47\x47\xf5\x16\x48\x98\xc5\xf2\x01\xad\xa7\xd7\xe5\x12\x71\x48\x42\xcf\xa2\xa0\x94\xc5\xc5\xa8\x97\xcc\xae\xeb\x18\xcb\x44\x8a\x19\x02\xa4\x61\xe9\x53\xf3\x8a\xc2\xd8\x0b\x3b\x2e\x46\xa3\x8b\xba\x63\x45\xf3\x18\xfe\x1a\x6e\xca\xb7\x58\xb1\xb9\xd9\x44\x89\x2e\x90\x6a\xf5\xc1\x17\x37\x7c\x51\xa1\x55\xac\x7b\x58\x76\xea\x29\x56\xd3\x01\xc4\x76\x04\x91\x30\xda\x31\x70\x9c\x35\x87\xcb\xf3\xa6\xd4\x29\x15\xa7\x1e\x4c\x47\xb3\xa3\xd8\xf1\x1b\x93\x19\xb3\x6a\xd8\x34\x77\x05\x13\x03\x9d\x2c\x68\x82\x6c\xfe\x4f\x12\x1a\x0b\x32\xaa\x7c\xa6\x31\x29\x38\xed\x37\x18\xb3\xc0\x26\xd3\xec\x8c\xdf\x63\x7b\x3d\x40\xdf\x23\xe3\x53\xb6\xcc\x15\x6a\x3b\xc3\x20\x78\x22\x6d\x01\xda\xb6\x2c\x18\x00\x83\x71\x99\x69\xf7\x0f\x9f\x4d\xea\x0b\x9d\xc0\x48\xcf\x13\x39\xbf\xf1\x0e\xa5\x2c\x82\xd2\xef\x53\x8d\x5d\x9c\x18\xef\x84\x81\xd4\xa9\x6e\x40\x7a\x20\xa8\x3f\xff\xea\xab\x14\x9e\x53\x32\x0c\x7b\xfa\x31\x52\x73\x6e\x78\xad\x4b\xc9\xb1\x47\x55\x97\x77\x02\x1d\xdb\xb9\x6e\xc1\x2a\x81\x3c\xc7\xdc\xbb\xc6\xd6\xe4\x20\xb1\x5f\x63\x93\xf9\xa0\x11\x8a\x07\x1d\x57\x91\xbe\x60\xb5\x9c\x33\x5d\x01\x66\xf1\x5f\x98\x57\x98\xbe\x97\xcb\xc9\x84\xf3\x4c\x1a\x4f\xea\xe7\x6f\x5e\xbd\xa4\x8a\xf4\xcc\x96\x8f\x5b\x57\x4c\xaf\xd5\xa1\x83\xf9\xd0\xfe\x65\x99\x6c\x3f\x5e\x08\xa8\x07\xd6\xc1\x73\x2b\x6b\x1a\x5b\xd0\x40\x14\x52\x71\x96\x59\x9a\x19\x21\xe9\x4b\x88\x2e\x43\xc4\x15\x8e\x0c\xe0\xde\xd4\xbb\xb5\xd9\x40\xdb\x8c\xb8\xab\x03\xf8\x80\xc7\xcf\x27\x89\x11\x3f\x98\x72\xac\x78\xbd\xd6\xbb\x78\x81\x6b\xb1\x1b\x8a\x96\x88\x98\x5a\x6a\x21\x01\x8d\xa2\xc5\x2e\x71\x9b\xb6\x8d\x9e\x15\x53\xc0\xa6\xa7\x7a\x4a\x1a\x7a\x65\x62\xa6\x0e\x90\x1d\x87\xe4\x8e\x93\xc7\x76\x06\xec\x36\xf2\x74\x2e\xa2\x0d\x23\x07\xce\xba\xfb\xc1\x7d\x6a\xd8\x26\x4e\xd2\x37\x5c\xc5\x11\x09\xc2\xf3\x9b\x55\xc5\xa3\x81\xaf\xf2\xcc\x02\xe6\x96\xc9\x7c\xfc\xdb\xe2\xc1\xf2\x61\xb3\x0e\xcb\x7f\x17\x23\x37\x9e\x7a\x49\x74\xc1\xb4\x55\xe2\x99\x24\xb6\x3b\x0e\xf5\x11\x7c\xc6\xf3\xf8\xd6\x26\x05\x6d\xa8\x07\x8f\x8f\xec\x19\x4b\xd6\x8e\x17\x0e\xa2\xee\x1a\xb2\x0f\xfa\x49\x96\xc5\x5b\xd6\x0b\xfe\x9f\x3e\x77\x88\x35\x32\x83\xe1\xb5\xe7\x68\x97\x16\x2c\xf7\x34\x90\x26\x8c\x9c\xec\x21\x89\xc7\xc3\x0d\x55\x34\xf0\x11\xc8\x09\x41\xc6\x66\xf2\x48\xef\x53\xcd\x71\x84\x1e\x76\x4c\xdc\xcb\x18\xb7\x32\x41\x61\xd6\x30\xb5\x71\x94\xea\x78\xbc\x9c\xc2\xbb\xf7\x58\x7f\x9c\xd0\x41\x5a\x87\xda\x10\xbc\x07\x9f\x3f\x5d\x00\xdd\x32\xf1\xdb\x82\xd8\x06\x21\x0c\xe0\x8b\xfb\xe4\xf1\x76\x80\xdd\x98\x40\x52\xfc\x96\xc3\x08\x7e\xf6\xff\xff\xf2\x2f\x0c\x7f\xe6\xbc\xc0\x31\x09\xfc\x95\x69\xc3\xae\x01\xa2\x31\x82\xf1\x72\xfa\xee\x02\x5f\xbe\xa7\x2d\x23\x41\x8c\xe5\x29\x9a\x6e\xd3\x38\xb2\xa2\x07\x70\x51\x3a\x4f\x7c\x81\xb1\x31\x4c\x13\x57\x68\x4b\x41\x51\x16\xe7\xc8\xb4\xce\x4b\xc0\x8e\xd1\x00\x81\x53\x0e\x98\xa0\x52\x3d\xf4\x4b\x7e\x1f\xdf\x9b\x43\xa7\x69\xa4\x05\xb4\xbf\x76\x5b\x95\xb0\x0e\x03\xdd\x0b\x9f\x51\x78\xfd\x1a\x67\xb9\x20\xe9\xfc\x6b\xd2\x15\xc8\xd8\xd4\x8b\x29\x21\xa7\x02\x6f\xe2\xcc\xb9\x13\xb5\x5a\x4a\x7b\x9b\xdb\xf8\x30\x12\x84\xbe\x34\x63\x6f\x0e\x1d\x53\x19\x9f\x9a\xcc\x95\x37\xa9\x43\x55\xa3\x85\xb7\x3d\xec\x54\x38\x53\xe8\x0e\x16\x80\x5f\x2c\xe0\xec\x7d\xcb\x23\xf1\xbc\x01\x9a\x78\x02\x35\x4e\xa0\x5d\x80\x37\x4f\x9b\x19\x7a\x46\xbb\x73\x4b\x76\xa2\x7e\x6c\x81\x20\xa4\xc2\x56\x70\x7e\x3b\x7c\x71\xd0\xe0\xf1\x02\x5e\x07\x2c\x1e\x17\xf1\xd8\x6b\x5a\x6c\x7b\xd0\x1a\xfb\xee\xec\x8b\x4e\xd2\x9a\xbb\x53\x38\x06\x25\xeb\x39\x29\x32\xdf\x39\xb6\xf3\x5c\xb3\x9a\x17\x8a\x1c\x4e\xc7\xa7\xba\xac\x0d\x75\x1d\x62\x65\xdf\x6a\xc8\xc8\xc1\x87\x82\xfb\x81\x17\xff\xd8\xbb\xac\x4e\x87\x1a\xce\x48\x7b\xe9\x2e\xfd\xce\x74\x90\xf1\x29\xaf\xa1\x4e\x51\x25\xa4\x97\x18\x05\x45\x01\xa4\x25\x06\x3a\xda\x8d\x6f\xbd\xb5\x56\x82\x8c\x6a\x01\x2d\x2c\x3c\xf0\x2e\x9b\x47\x77\x17\x5e\x73\x96\x3d\xc9\xf3\xd8\x00\x3f\xae\x62\xd2\x5e\x68\x98\xa2\x36\x1d\x40\x44\x92\xa0\x46\x4d\x6e\xad\x29\x5c\x99\x25\x67\x64\x95\x41\x5b\x10\x7d\xa5\xd7\x16\x2c\xad\x50\x43\xbf\xeb\x62\x04\xee\x4e\x50\x23\xee\xc8\x88\xd4\xdd\x83\x27\x79\x5e\xde\x5f\xb3\x5a\x09\x96\x63\xc8\x4e\xd5\x4b\xb2\x38\x9f\x09\x39\x61\x75\xf6\xb6\xd0\xf7\xb7\x2e\x9a\x16\x5b\x36\x82\x4b\x1f\x81\x3f\xe1\x8e\x48\xc5\xc4\xe5\x8e\x50\xed\x16\xab\xfd\x82\xb5\x53\xb4\x12\x1a\x2d\x62\xba\x03\xbb\xee\x20\x2b\x51\xef\x93\x64\xae\x21\x48\xe0\x29\xc4\xa7\x2c\x23\x76\xa0\x36\x44\xa0\x41\xcb\x85\x02\xd0\x5d\xbd\x66\x35\x5b\x48\xeb\x0b\xfd\x8a\xd5\x32\xae\x13\xaa\xd4\x69\xda\x31\x70\xf0\x71\xc9\xeb\x55\xd3\xbd\x4e\xdf\xbe\xfe\x2e\xfd\x25\xbe\x8c\xed\x00\xaf\x4b\xe8\x3b\x48\xa6\x4a\xf6\x62\xd4\x70\xad\xbe\x7b\x42\xde\x91\xae\xb3\x29\x6c\xb7\xf4\xbb\xd2\x78\xf0\x10\xe9\x45\x9a\x3e\x18\xc4\xd5\x50\xd2\x6f\x78\xa1\x27\x75\xbb\x89\xae\x53\x2b\x62\xec\x7e\xed\x47\xe1\x55\xc1\xcb\xe9\x0e\x1e\xfc\xe3\x2e\x1e\x7a\x59\x3f\x06\x11\x77\xac\xbe\xa8\xf9\xc7\x26\x1b\x4e\x1e\x91\x0e\x53\xdb\xae\x4d\xd8\xb1\xc3\xdb\xea\x94\x98\x7d\x79\x50\x23\x1f\xa5\x75\x3d\x9c\x5e\x67\x52\xcb\xcf\x6d\x57\xc3\x38\x5e\xf5\x09\x39\xce\x0e\x04\xbb\x64\x5f\xa7\xe1\xde\x97\xf6\x74\x26\x52\x9f\xa0\x78\xb1\x23\x26\xb6\x85\x84\x93\x05\x6f\x25\xbf\x46\x01\x83\xf2\x52\xfa\xe2\xe3\xad\xe4\x57\xc5\x72\xf1\x72\xb9\x18\xf3\x5a\x5e\x34\x0d\x57\x0b\xa1\xde\x16\x55\x59\x2d\xd1\xdf\xce\x9c\x58\xd9\x84\x2d\x79\xda\xe0\x66\xd1\x71\x75\xef\x69\xac\x51\x4d\x5f\x70\x29\xd9\x8c\x27\xfb\x2a\x23\x2c\x1b\x7c\x18\x90\xb4\x72\xe6\xa4\xb6\xa4\xbc\x5e\x7e\x9a\xd6\x15\x47\x4a\x32\x06\xba\x02\x34\xdd\x41\xca\x1d\x2d\xd4\x97\xaf\x6d\xac\xf3\xda\x33\x27\xf6\x66\x68\x11\xf0\x6e\x76\x76\xce\x24\xcc\x59\x16\xea\xa4\x6a\x5f\x3e\x56\x67\x01\x33\xac\x01\x15\x18\x72\x6e\xf8\xdb\xbf\x48\xad\xe6\xdc\x40\x31\x86\x94\x4c\xad\xd2\x77\x69\x60\x64\x66\x0c\xe5\xba\x98\xa5\x45\x87\x3c\x5c\x44\x5b\x96\x06\x48\x3b\xe9\xbb\x37\xdd\xbb\x37\x89\x7b\x3b\x70\x14\x4a\xbf\xe1\x2a\xbe\xc5\x0d\xdf\x9f\xf7\xdd\xc2\x3f\xbe\x4d\xba\x60\xa0\x7c\x46\x72\x2f\x0b\xde\xdc\xd7\x9a\xcc\x51\x96\xa5\xba\x85\xe5\xb2\xc4\x2d\xa0\x33\xac\xa5\x3d\x2c\xeb\x3c\xdc\x3f\x7b\x44\x5d\xcf\xf1\x5a\xf7\x80\x84\xf8\x35\x53\xf3\xe4\xd0\x40\xb7\x2b\x58\xe5\x8f\x3c\x87\x42\x24\x4a\x3e\x39\x3d\x8d\x20\x28\x23\x63\xdf\x9d\x90\x9e\xf6\x46\x37\xf1\xdb\x8e\xec\x74\x01\xd8\x93\xa4\x17\xe4\xe2\x0e\xad\x56\xa6\x88\x6a\x8b\x52\xe9\xe0\x05\xc6\x26\x58\x81\x97\xc2\xbe\xc7\x0a\xff\xca\x5c\x3f\x33\xef\x50\x4e\x4e\xca\x05\x37\xb7\x22\x9a\x49\x32\x21\x27\xf8\x55\x83\x15\xc8\x95\x54\x7c\x31\x00\xa9\x8b\xcd\x73\x71\xcb\xf3\x95\x65\x3a\x64\x23\x88\xe6\xa5\x54\x17\xc8\xd1\x11\x09\xd0\xd6\x0a\x62\x37\x95\xad\x57\xee\x0d\x0b\x9f\x9e\xbc\x16\x53\xf8\xcc\xb2\xdc\x25\x7d\x0c\xc1\x4d\x38\x80\xe8\x62\x38\x8c\x74\x14\x25\x70\x58\x8c\x20\xc2\xa3\x8a\x2d\xf0\xff\x1c\x1d\x90\x27\x83\xa5\x93\x81\xcb\x3a\x4f\xaf\xd1\x36\x71\xc0\x8e\x2e\x02\x43\xd3\x62\x19\xd2\xad\x68\xf4\x2b\x3b\xfc\x0d\x4a\xdd\x9a\xdb\x13\xd1\xcb\xd2\x6c\xa3\x17\x39\x37\xd5\xfb\x9a\x1c\x26\xce\x84\x80\xee\xcb\xfa\x76\x40\xb7\x4b\x81\xf4\x3c\xba\x7d\x78\xbd\xaf\x36\xd6\xa6\x69\x15\x48\xc0\xa8\x89\x08\x6b\x63\xe1\x78\x4f\x28\x58\xaf\xf1\xb6\xf4\xb6\xeb\x43\x48\x63\xab\x0e\x2e\x5a\x53\x03\xc5\xa9\x28\x32\xfe\xb0\x3b\xe2\x2b\x3b\x86\xea\x04\xb6\x7d\x8a\x7d\x65\x02\x68\x6a\xe8\xff\x06\x7b\xc6\x75\x5c\x6b\xf6\x6a\x05\xa8\x0c\xa0\x37\x22\x4d\xf6\x63\x30\x29\xab\xd5\xdb\xd7\xdf\xc5\xcb\x01\xf8\xfd\x9f\x32\xc9\xe9\x4e\x6f\x62\xbb\x36\xb6\xc1\x2e\x56\x6d\xab\xb4\x1d\x7e\x26\xca\x74\x54\x14\xec\x94\x0b\x04\xdb\x15\x03\xd6\xb2\x6d\x76\xb3\xf5\xbb\xf9\xe9\x84\x55\x67\x11\xc1\xde\x7d\x87\xf3\x3f\xd5\xce\xf7\xc5\xe8\xa9\x48\x61\x9b\x88\xb6\x99\xaa\x2d\xf6\xae\xd7\x2b\x5e\xd0\x72\xc7\xee\xe3\x98\x49\x0e\x67\x78\x86\xdf\xbe\xfe\x6e\xa0\xf3\x56\xa4\x98\x12\xf7\x1a\xcf\x6f\x81\x56\xc1\xc5\x08\xce\x70\x80\x79\xd4\x39\x0a\x72\x0e\x1c\x39\xbf\xc0\x16\x0a\x2f\x5c\xaa\x07\x9b\x75\x7d\x83\xd6\xed\x44\x57\xcf\x2f\x6b\x0a\xd4\x20\x3b\xda\x83\xab\x4a\xa8\x96\x79\xae\xdf\x93\x96\xe3\x19\x56\x80\x49\x28\x97\xa8\xb8\xad\xf1\x4a\x4a\x49\x07\x77\x48\xe9\x2d\xac\x01\xeb\xbb\x9f\x68\x29\x50\xb0\x23\x05\x78\x59\x2a\xba\x0d\x8c\x20\x11\x96\x96\x14\x73\x76\xc7\xc1\x7e\xe6\x64\xbf\x41\xa2\xe7\x19\xeb\x44\x18\x5d\x88\xd3\x37\x7e\x50\xee\x5b\xd4\xf0\x6e\x35\xa5\x0e\x98\xad\x78\xd2\x96\x07\xae\x6a\xe5\x62\xe0\x2e\x6b\xe8\x5f\xd7\xe3\xb5\x53\xb7\x94\xb5\x6e\xd3\xce\x64\xaa\xbd\xeb\x28\xfd\xda\xc0\x8f\xf7\x74\x74\xa2\x64\xde\x9e\xeb\x9c\x47\xd8\x86\x3f\x59\xae\xda\xd9\x3b\x18\xe0\xde\x0e\xf2\xda\x65\x98\x94\x72\x82\x5c\x85\xb4\x46\x89\xd2\x57\x79\x73\x50\x60\x6f\x07\xa4\x3a\x85\xcd\xde\x78\xd4\xb6\x77\x45\xc1\x28\x63\x8b\x6d\x07\xa4\x6c\x8c\x86\xa6\xb1\xa3\x4d\x70\xa6\xf1\x7c\xb6\x03\x52\xf4\x1a\xdd\x5e\x63\xe4\x51\x02\xc6\xb5\xa0\x39\xcd\x74\x30\xe0\xcf\xbe\xfa\xca\xcf\x44\x0d\xe0\x9e\xd2\x2d\x3a\xdc\x59\xd5\x1c\x4d\x1c\xa6\xcf\x03\x2b\x34\x2c\x6d\x12\x68\x46\x65\x4a\xe1\xd7\x25\xf0\xfc\x98\x55\xf8\xe7\x8f\xc2\xd7\xb0\x30\x0e\x4c\x83\xa3\x45\xe2\x60\xc0\xcc\x56\x9e\x74\x04\xcc\x3a\xc9\xbe\x3f\x5e\x66\x26\x3d\x3d\x60\x76\x4a\xfc\x6b\x84\x5d\xd2\xab\x57\x5f\xf7\x86\xc0\x30\x86\xdd\x44\xc6\x91\x31\x34\x09\x00\xe9\xb8\xf2\x63\x5e\x5b\xe6\x4f\x17\x2c\x0c\xa7\x75\x44\xd3\x1c\x50\x02\x67\xe0\xd5\x5e\x26\x02\x3e\x6b\xa5\x3d\x5e\xfd\x62\xef\x14\xd3\x78\x3b\x0f\x91\x0c\x20\xf2\x78\xe6\x02\xbe\xfc\x3c\xfb\x32\x1a\xb4\xe6\x70\x73\xa3\x39\x82\x0b\x3e\xc4\xcd\xe1\xc9\x51\xbd\xde\xa0\x5e\x5f\x4c\x6f\x13\x1e\x1f\xd1\x93\x55\xf2\xf8\xf0\x26\xf8\x44\xb1\x0b\xa6\x4e\x5f\x34\x45\xd2\x41\x3b\x2a\xe3\x0b\xa0\xab\xe2\x44\x01\xe4\x7a\x7a\x86\xc1\x8e\x49\x70\x4e\xa2\xea\x08\x13\x6a\x6f\x24\xc8\xc5\xce\x43\xe7\xeb\x52\x30\x08\xd8\xf1\xe1\x72\xfd\xe5\x0a\x3c\xf9\x77\xac\x16\xe5\x52\x02\xaa\x13\xb4\xc2\x50\x2f\x07\xc3\xe1\xae\xf2\x8d\xd1\x8e\x18\x80\x0e\x97\x99\x74\x39\x1e\x92\xc4\x8a\x82\x23\x96\xb5\x5f\x16\xe8\x2e\x3d\xd5\x69\x2e\x70\x84\xdf\xdf\xba\x63\x39\xee\x45\x14\x51\x5c\xd2\xbc\xda\xff\xe5\x81\x2d\x62\xd0\x6c\x86\xc9\x6d\x7c\xb3\xe6\x1f\xc3\x70\x4b\x7d\xf5\x3a\xc6\xdb\xfd\xfa\x3d\x6f\x13\x93\x78\xa3\x65\x36\x5e\xcf\x57\x73\x0c\xfb\xb2\x05\x57\x98\xb4\xc1\x3b\xe4\x6a\x8e\x68\x5b\x3f\x4e\x97\x67\xd9\x94\xd2\xd6\xfd\x53\xc9\x75\x70\xa8\x15\xe9\xc4\x59\xde\x98\xf7\x2e\xd4\x69\x3b\x6e\xb6\x6f\xa1\xa2\xc9\x18\x0d\x35\xfe\x5d\xde\x1e\xe2\xb2\x3f\x75\xb0\x2d\x83\x50\xce\x95\xcb\x3c\x2b\xbe\x54\xcd\xe9\x35\xab\xfc\xfc\x63\x64\x8c\x4f\x2b\x41\x0d\x55\x5e\xb3\x7b\x32\x32\x97\xf6\xb7\x6b\x73\x0d\xf8\x63\x8b\x72\x9a\xf1\xda\xa4\xf3\x92\xd1\x5b\xf1\x6a\x14\x70\x6a\x51\x51\x72\x96\x36\x58\x2d\xaa\x36\x39\xfb\x22\xd7\x60\xe9\x78\x0e\xc7\x05\x8d\xc5\x54\x1f\x08\xea\xf6\x9a\x57\x1c\x23\x8c\x76\xd8\x73\xf9\x94\x79\x12\xb5\x81\x1c\x5b\x9f\xdd\xf6\xfc\xa6\xc4\x5e\x10\xd9\xed\x8f\x12\x3b\xc2\x2c\xf5\x5d\xe4\x02\xd4\xbf\x74\xd1\x78\x2a\xf1\x7e\x6f\x58\x38\x75\x3d\x2e\xd9\x82\x53\x4d\x78\x33\x2b\xcf\xa5\x7b\xde\x4d\xd7\xf7\x8d\xb7\xd9\x10\x42\x43\xa7\xef\xf7\xa0\x32\xf0\x3e\xd1\x15\xdf\x61\xc4\xab\xc9\x9a\xb4\xb8\x11\x71\x42\x8c\x90\x18\x65\x0d\x31\xea\xcb\x1d\xa2\x25\xdb\x74\xb5\xf8\x6b\xba\x53\xdb\x1b\xc5\xea\xab\x87\xaa\xde\x6c\xc4\xb4\x7f\x19\x96\xa1\xa1\xf1\xac\x82\x20\x50\x0b\xba\x1b\xb7\x55\x62\xd2\x07\x86\xd6\xd3\x71\x48\x3a\xcf\x09\x1d\x93\x29\x13\xb9\xa9\x01\xb2\xa7\xa4\x0f\x7e\xd4\x26\x18\x89\x3c\x2b\x21\x62\xb5\xa8\x92\xf0\xa4\xdd\x30\x10\x92\x7d\x54\x83\x4d\x8b\x26\x66\x5b\x2c\x81\xd6\xeb\xe1\xd9\x1f\xfe\xf5\x6f\x7e\xf8\xfd\x3f\xff\xf0\x4f\xff\xf6\xc3\xdf\xff\xee\x8f\xff\xf8\xb7\xff\xf9\xef\xff\xf1\x87\xdf\xff\xdd\x0f\xff\xf2\xbb\x3f\xfe\xee\x1f\xce\x86\x70\xbe\x7f\x4f\x1c\xc1\xfa\x96\x0c\x9f\x8d\x7c\x22\x7e\x02\x9b\x9d\xf5\x81\xde\x61\x3f\x7f\x65\x9f\x30\xd1\xa1\x79\xda\x64\x6c\x4a\x12\xb7\x9e\xe8\x61\xb3\x69\x8b\xa4\x12\xf3\x56\x7d\x99\xac\x5d\xb9\xa4\xbb\xf7\xcb\xa5\x06\x6c\xe5\xf4\x86\x19\x42\x36\x1b\xb4\xf6\xcd\x1d\xc1\x52\xb7\xb6\xcf\x20\xbd\xdb\x3e\x84\x68\xc7\xde\xe1\xf5\x1e\x53\x8c\x43\xd4\xa1\xce\x1e\x79\x74\xe9\xb8\x05\xa2\xb3\x73\xa4\x7d\x3d\xcf\x71\xcf\x59\xbc\x63\x79\xda\xa8\x73\x02\x43\x84\xb7\x63\xbb\x0f\xe4\xa7\x1c\xc9\x16\x7c\x7b\x1c\x1d\x0b\xed\x3b\x92\x3b\x2c\x45\xa0\x0e\x9d\xca\x6e\xf6\xfc\x89\x89\x7b\x34\x6a\x1e\xbb\xef\x23\xfc\x0e\xee\x3e\xb7\x6f\x3d\xb6\x9e\xe8\x41\x07\x66\x1b\xb3\x40\x23\x02\x23\xaa\x31\x23\x83\x37\xd6\x16\x14\xb1\x7c\xe1\x99\x72\x3a\x9c\x19\xcd\xb8\x32\x9f\xad\xf4\x4d\x05\x34\x4c\xdb\x96\x82\x2a\x5f\x73\xf5\xa9\xc6\xe1\x31\x16\xc3\xf9\x81\x2c\x73\x3b\xdb\x3d\x3c\x83\x57\x45\xbe\xd2\x5f\x80\x42\x84\x75\x6f\xfb\x35\x45\x39\x47\x83\x0a\xc6\x2e\x98\x84\x63\x31\x01\x81\x77\x21\x35\x65\x4b\x35\xf7\xcb\x4b\xcb\x85\x50\x68\x6e\x64\x4b\xfd\x71\x1a\x74\x5b\xf1\x03\x8c\x12\xce\x86\x34\xa3\x5e\x7e\xa7\xd4\x3a\x60\x34\x34\xc2\xac\xb5\x7f\x74\x5c\xb6\x3d\xc2\x17\x87\xfd\xc1\xc6\x21\xec\x4d\xe0\xf6\x67\x70\x7b\x53\xb8\xfa\xf4\xe0\xed\x0c\x67\xd3\x3a\x0c\x9d\x04\x39\xf8\x1d\xb1\x7d\xa6\xad\xf1\xb0\xb4\x07\x8f\x51\x17\x14\x4d\xf0\xf9\x5d\x34\x00\x4d\xd9\xc6\xc0\x7d\x8a\x1d\x5c\x4c\xc2\x7d\x4f\x34\xc6\x12\x41\x89\xc5\xe8\x4f\x97\xd3\x29\xaf\x63\xc4\xd5\x2f\xa1\x06\xbf\x8e\x80\xdc\xd3\x60\xf7\xb3\x65\x07\x3f\x5a\xe2\x3e\xe3\x7a\x6c\xa2\xee\xe5\x93\x9b\x37\x9f\x72\x43\xc3\x56\x9a\xe1\x78\x30\xe1\x4d\xf7\x4c\xb7\x36\x11\x17\x44\xb4\x18\x80\xac\xef\xcc\xb3\xfb\x2a\x1d\x39\x74\xbb\x1f\xc4\x3b\xf6\xe6\x65\xd7\x1d\xca\x37\xcb\xb1\x63\x00\xc4\x01\x35\xf9\x92\xbf\x59\x8e\xe5\xa4\x16\x63\x1e\x6f\xdd\x99\x24\xd9\xe9\xdd\x9a\x42\x27\xaf\xab\x0f\x4a\xeb\xfa\xce\xff\x62\x87\x06\xc2\x5f\xc8\x99\x5e\x6c\x72\x90\xb3\x88\x43\xd0\xcf\xec\x46\xdc\xbb\x93\xe8\xb1\xc1\x7a\xdd\xfa\x88\x05\xbb\xe5\xde\x86\x1d\xfb\x99\x18\x1c\x72\xc4\x67\x62\x1a\xc8\x07\xaf\xb3\xb4\xbe\x11\x9c\x3a\x02\xd3\x25\x81\xc4\xdf\xeb\x9e\xcf\xc3\xec\x87\x40\xf5\x08\xff\xf3\xbe\x12\xd3\xac\xeb\xe0\xfd\x54\x62\x52\xb7\xc7\x17\xd0\x5e\x33\xde\xea\x70\xcb\x3e\xe9\xd3\x30\xb8\x51\x5e\x0f\xd2\x57\x03\xba\xdd\x7e\x55\x74\xf6\xf1\x52\x6e\x4d\x8f\xad\x02\x9f\x53\xbf\x1d\xe3\xed\xb2\x77\x81\xe0\xf4\x6f\xc7\x78\x70\x5c\xb5\xf0\x61\xe2\x7a\xcb\x03\x80\xb3\x36\x75\x1b\xd2\xee\x7c\x0a\x86\x66\xda\x4e\x33\xf4\xcd\xe3\x05\xba\x91\x64\xeb\x75\x9b\xec\xdd\x09\x97\x85\x9c\x91\x00\x7c\x21\x67\xfd\xf1\xed\xdd\xc2\xcf\xae\x4b\x95\x7b\xca\xc7\x17\x72\x96\x3e\xd3\x7a\xaf\xbb\xe0\xb1\x2b\x43\x6f\x79\xb9\xe7\x86\x26\x91\x87\x82\xa0\x4d\xc5\x5a\x07\xbf\x6c\xc7\x29\xf5\x82\x8f\xa8\x58\xc3\x18\x1a\x94\xe3\xdf\x60\x25\x06\x85\x21\xa5\xdb\x2f\xfb\x35\x8e\x17\xac\x58\x99\xd4\x0b\x26\xe4\x6c\x65\x86\xf9\xa8\xdf\x12\x43\x06\x98\xff\x40\xf4\x50\x00\x16\x52\x60\xf6\x8d\xee\x0c\x91\x50\xeb\xc5\xbb\x27\x49\x86\xf3\x92\x45\x3f\x80\x62\xd2\xd2\x60\x2e\x3d\xd0\x1d\x97\xb4\x74\x6e\xf1\xa0\x99\x1f\x97\xe0\x4f\x4c\x13\xe1\x0c\x0d\xd8\xe4\x94\xe2\x1a\x5c\x11\x85\xaa\xed\xbb\x13\x8a\x6b\xbc\xd1\x07\xbe\xfd\x80\xcb\xff\xef\xfe\xf6\x43\x83\xdd\xae\x15\xd1\xab\x80\xae\x97\xe3\x5c\xc8\x39\xaf\x4f\xa9\x9d\xe9\xfe\xf0\xc3\xb1\xd6\xc7\xa7\x7c\xf9\xc1\x56\x74\xec\x1b\x36\xda\xe2\xa1\x97\xfc\xde\xad\x4e\x2b\x09\xef\x13\x10\x41\x70\x84\x41\x13\x7a\x75\x1b\xad\xa3\xe0\x17\x6b\x3c\xe3\x87\x74\xc6\x6e\x95\xc6\x76\x91\x46\xab\x24\xd6\x09\x14\x7b\x32\x3a\x4b\x32\x3a\x45\x2e\xb9\x52\x1e\x22\x5b\x25\x13\xa7\x7f\xd7\x01\x17\xd6\x97\x5d\xee\x13\xfb\x2e\xa9\xdc\x43\x95\x4e\xd9\x77\xdc\x77\x1d\xac\x5e\xf8\x93\x7d\xc1\xa1\x07\xe5\x23\x54\x15\xf4\xeb\x2a\xac\xa4\x3b\x42\x0d\xf1\xba\xb6\xf3\xed\xa8\xa3\xe1\x10\x76\x35\xd2\x70\x08\x1b\x0f\xba\x1d\x9c\xea\x72\x7a\x3b\xf8\x8b\x2f\x76\xdb\x52\x4c\x69\xea\xaf\x47\x7e\x10\x74\x49\xec\x43\xd4\x33\x8d\x4d\xf3\xee\x02\xb1\xb5\xbc\x16\x91\x8e\xd4\x68\xe7\x77\x29\x8e\x55\xca\x5d\x39\xcb\xfd\x5a\xb9\xfb\x33\x4e\x3e\x0f\x93\x6e\xee\x56\xcd\x94\x3e\xdb\xa3\x99\xdb\xb7\x6f\xdc\xff\xf0\x10\x95\xf0\x50\x84\x44\xbb\x0e\x3d\xca\x1a\xb7\xda\x4a\xfa\x17\x72\xb6\xad\xab\xcf\x35\xae\x3f\x8d\xc2\x3e\xd6\xc6\x3a\x94\x38\xb4\x24\xef\x55\xd0\x6e\x22\x7d\x22\x1c\xb8\xc4\xdb\x86\xff\x1a\x00\xf7\xb8\x84\x65\x28\x6b\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4f\x8f\xe3\x38\x76\xf8\x59\xfa\x14\x6f\x84\x9e\x19\xa9\x7f\x2e\x79\x7e\x01\x12\x6c\x6a\xe0\x00\xdd\xd5\x35\x33\xbd\x3b\xdd\x53\xdb\x5d\xbd\x73\x68\x34\x7a\x69\x8b\xb6\xb9\x25\x4b\x6a\x52\x76\x95\xd7\xf1\x25\x97\x0d\x90\x00\x01\x72\xca\x21\x58\xe4\x94\x6b\x90\x73\x3e\xcf\x4e\xb0\xdf\x22\x78\xe4\x23\x45\xd9\x92\xff\xf4\xcc\x06\x41\x90\x46\x32\x65\x89\xe4\xe3\xe3\xe3\xe3\xfb\x4f\xed\x70\x08\x57\x65\xc6\x61\xc6\x0b\x2e\x59\xcd\x33\x18\xaf\x61\xcc\x64\x59\xa4\xf0\xec\x3b\x78\xf9\xdd\x2d\x5c\x3f\x7b\x7e\x9b\x86\xc3\x21\xbc\xe2\x72\x59\x14\xa2\x98\x99\x0e\x70\x2f\xf2\x1c\xca\x15\x97\xf7\x52\xd4\x1c\xea\xb9\x50\x30\x15\x39\xd7\x9d\x7f\xc5\xa5\x12\x65\x71\x09\x9b\x4d\x4a\xbf\xb7\x5b\xaf\x01\x9e\xb1\x9a\xfb\xad\xf8\xbc\xdd\x86\x61\xc5\x26\x77\x6c\xc6\xb1\xe5\xc6\xfc\x7c\xc9\x16\xba\x65\x38\x84\x5b\x3b\x07\x4c\xca\xa2\x66\xa2\x50\xb0\xe0\xf5\xbc\xcc\x14\xd4\x25\x2c\xd8\x1d\x07\x51\x64\x62\x25\xb2\x25\xcb\x81\x17\x59\x55\x8a\xa2\x56\x30\x95\xe5\x02\x14\x97\x2b\x31\xe1\x6a\x80\x68\x48\xfe\x61\xc9\x55\x0d\xac\xc8\x40\x72\x55\x95\x85\xe2\x50\xaf\x2b\xae\x21\x61\x57\x5c\x51\xa9\x78\x03\x65\x00\x4c\xc1\x3d\xcf\x73\xfc\xcb\x8b\x49\x99\x71\xa9\x10\x00\xc2\xcb\x38\x3d\x4f\x4b\x49\x03\x35\xb4\x81\x7e\xc1\x90\x52\x53\x28\x97\x12\xd4\xb2\xaa\x4a\x89\x94\xae\x25\x2b\x14\xfe\x46\xcc\x04\xcb\xc5\x6f\x59\x2d\xca\x02\xa1\x4d\x4b\xb9\x60\xb5\x4a\xc3\x50\x2c\x74\x8f\x38\x0c\xa2\xf1\xba\xe6\x2a\x0a\x83\x08\xd7\xce\x1f\x6a\xfc\xa9\xd1\x10\xc5\x6c\xf8\x1b\x55\x16\xf8\x62\xba\xd0\xef\x45\x69\xfe\x3b\x14\xe5\xb2\x16\x39\x3e\x14\xbc\x1e\xce\xeb\xba\xb2\xbf\x97\x52\xbf\x56\xb5\x9c\x94\xc5\x8a\x7e\x8a\x62\xa6\xa2\x30\x0c\xa2\x99\xa8\xe7\xcb\x71\x3a\x29\x17\xc3\x59\x79\x71\x27\xea\x21\xfe\xbf\xa5\x45\x14\x06\xac\x58\x57\x63\x88\x66\x65\x39\xcb\x79\x3a\x2b\x73\x56\xcc\xd2\x52\xce\x86\x95\x2c\xeb\x72\xbc\x9c\x0e\xf5\xfa\x87\x77\x45\x79\x5f\x0c\x75\xef\x28\x0c\xb2\xa5\xd4\x8b\x3c\x63\x68\x33\x24\x0a\x03\xbe\xa8\xea\x73\xe6\xa5\xfe\x51\x18\x4c\x05\xcf\xb3\x05\x53\x77\x67\x8c\xf6\xc6\x44\x61\xa0\x6a\xb9\x9c\xd4\x67\x0c\xb7\x03\xa2\x30\xa8\xc5\x82\xab\x9a\x2d\xaa\x33\x86\x7b\x63\xa2\x30\xb8\x97\xac\xaa\xb8\x54\x67\x00\x68\x86\xec\x6f\xa9\x14\x79\xce\x86\x8b\xe5\x43\xd4\x6e\xa9\xee\x66\x43\x2e\x65\x29\x35\xa7\x1d\x98\xc8\x71\x9e\x7e\x63\xd9\xef\xc0\x00\xfd\x03\x11\xd9\x6c\x2e\x40\x4c\x81\x7f\x80\xf4\xaa\x2c\xa6\x62\x96\xde\xba\x93\x10\xb1\x3c\x8f\x20\x2a\x58\xad\x22\xd8\x6e\xdb\xb8\xe1\xdb\x0b\x51\xea\xbf\xe9\x0c\x39\x1c\x41\xf1\x22\xdb\x6e\x4f\x82\x3a\x93\xd5\xc4\x42\xdd\xc3\x53\x37\xf6\xb6\x0c\x17\xbc\x66\x19\xab\xd9\xee\xa4\x27\x4f\x89\xf0\x9b\x13\xdf\x73\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x33\x00\x60\xf7\xe8\x24\xb2\x34\xc4\xc6\x5f\x67\x4c\x81\xdd\xdb\x38\x22\xba\x92\x15\x33\x0e\x8f\x2a\xb8\x1c\x41\xfa\xda\xc8\xdc\xf4\xb9\x16\x63\x5c\x2f\x44\xd0\xef\xcd\xe6\x51\x95\x1a\xe1\x0e\x91\x7e\xb8\x61\xf5\x7c\xbb\x6d\x81\x4c\xc2\x30\x5c\x31\x09\x71\x18\xbc\x87\x11\x4c\x17\x75\xfa\xba\x92\xa2\xa8\xcd\xb3\x96\x89\xe9\x55\xb9\xa8\x98\xe4\xe6\x15\x09\xb4\xf4\x49\x5d\x0a\xf3\xa6\x45\xb9\xf4\x25\xbf\x47\xac\xb8\x34\x8d\x46\x40\xa6\x2f\xcb\xea\x2a\x2f\x55\xf3\x36\xbd\x2a\xab\xb5\x79\x30\xe7\x21\xfd\x5e\xb2\x2a\x0c\x86\x43\x20\x16\xb1\x9c\x6d\xd4\x06\x76\xd5\x52\x2e\x7d\x52\xe8\x71\x8d\xdc\x4a\x9f\xd1\x4f\x7c\x4d\x12\x29\xbd\xc6\xbf\xf8\xc2\x4a\x89\xf4\xb5\xfe\x81\xaf\xbc\x93\x9f\xde\xda\xdf\xd8\xd0\x9c\x68\xec\x2d\x8a\xd9\xaf\x58\xbe\xd4\xeb\xf6\x44\x55\xfa\x15\xfe\x7e\xc1\xd4\x5d\x98\x84\x9b\xcd\x91\xfd\x70\x1d\x6a\xec\xf0\xa8\x4a\x6f\x71\x35\x46\x57\x6f\x36\x8f\xea\xed\x16\x84\x02\xa6\x17\x89\x3a\xac\x9e\x73\x90\xd5\x44\xc1\xfd\x5c\x4c\xe6\xed\x8d\x83\x8c\x4f\x45\xc1\x55\x1a\xea\xde\x34\x7c\x04\x1d\x3b\x9e\x9a\xc6\x70\xb3\xd1\xec\x4d\x7f\xc2\xe1\xe3\x93\xfe\xc1\xb5\x55\xca\x60\x5f\x1d\xff\x37\xd4\x26\xc4\xf3\x02\x18\x2a\xdc\x15\x97\x03\x10\xf5\xe7\x0a\x96\x8a\x4f\x97\xb9\xd6\xd3\xd3\x65\x31\xc1\x3d\x53\x50\xcf\x59\x0d\x05\x47\x35\x5d\x42\x59\x69\xe3\x08\x4a\x1c\x5b\x71\x79\x61\xf5\x20\x02\x1c\x33\x25\x54\x0a\x5f\x95\x12\xf8\x03\x5b\x54\x39\x1f\xc0\xba\x5c\xc2\x42\xcc\xe6\x35\x54\x4c\xa1\x8d\xe0\x21\x5c\x97\xc0\xdc\x44\x66\x9e\x4a\x96\xd9\x72\xc2\x15\x82\x63\x85\xe6\xd7\xf4\x1b\x56\x64\x39\xe2\x78\x2f\xea\x39\x70\x36\x99\x93\xa9\x03\xb1\x9d\x3d\x81\x7b\x21\x79\x06\xcb\x0a\x91\x64\xa0\x2a\x3e\x11\x53\x31\x81\x8a\xd5\xf3\x14\xe2\xe7\x35\x02\x14\x0a\x2a\x59\x8e\xd9\x38\x5f\x03\x83\x85\x50\xb5\x31\x93\x20\xe3\x4a\xcc\x0a\x1c\x2a\x8a\x55\x79\x87\xf6\x0e\x07\x62\x10\x67\x56\x69\x14\x39\xc2\x69\x56\x60\x38\x16\x44\x43\xc9\x34\x09\x87\x43\x47\xdd\x49\x2e\x78\x51\xb7\xa9\x5b\x97\x30\x29\xf3\x9c\x4f\x6a\xcf\x42\xcb\xd7\x30\x29\x0b\x03\x8e\x67\x9e\xbd\x26\x0a\x5c\x10\x02\x54\xa2\x98\xe5\xc6\x32\x33\xb4\x12\x48\xe1\x05\x47\x3c\x7c\x7c\x45\x51\x73\x39\x65\x13\xde\xb7\x13\x08\xcc\x4d\xd6\x6d\x25\x2e\x71\xb2\xc6\x2c\xd3\xd6\x12\x8a\x8b\x2b\x5a\xcf\xa4\x5c\x8c\x45\xa1\xe9\xb4\x20\x14\xbd\x8d\x1d\x90\x2d\x59\x2f\x65\x01\xa2\x46\xba\x22\x82\x13\x96\xe7\x5c\x02\xc3\x33\x44\xc8\xd2\xf1\xd8\x23\xe8\x26\x0c\xde\x14\x6e\x7d\x78\x5c\xdc\x79\x35\x62\x92\xe4\x96\x3b\xb2\xa2\x75\xa6\x5f\x98\x2d\x43\x11\xbb\xd9\x3c\x12\x74\xd0\xec\x2c\x00\xe0\x96\x9a\xda\x97\xf6\xf8\x85\xc6\xbc\xb6\xaf\xd5\xf1\x29\x90\x81\x21\xf6\x16\x91\x80\x37\x69\x3c\xa9\x1f\x80\xcc\x54\xd4\x8d\xf8\x77\x80\x0c\xf3\x78\xb3\xf9\xba\x44\xc4\xe0\x91\x48\x5f\x19\x1b\x1c\x05\x0e\x8d\x4b\x20\xde\xe9\x61\x2c\x73\xaf\xcb\xc0\x88\xe3\x04\x36\x61\x60\x0d\x77\xfd\x0e\x69\xc1\xd3\x8e\x95\x23\x32\x38\x79\x12\x06\xa8\xad\xa5\x84\x4f\x46\x50\x88\x1c\x21\x04\xb4\x5f\x85\xc8\x35\x90\x30\xd8\x86\xf6\x9d\x85\x9e\x1e\xc5\x29\x19\x20\xbc\xd0\x49\x33\x4d\xcc\x17\xec\xce\x23\x4f\xb8\xd9\xe8\x83\xfc\xa8\xe6\x88\x68\xaa\x45\x9f\x53\x96\x9a\xca\x8f\x6a\xde\x47\x68\x84\xd5\xb5\x32\x85\x44\xaf\x79\x27\x9b\x24\xfb\xdb\x0d\x1b\xb7\x38\xdc\xbf\xee\x5d\xb2\x9e\x91\x3b\x51\x9b\x6d\x02\xb1\x25\x86\xff\x5a\x53\xcc\xdb\x8e\x40\xf2\x0f\xb8\x10\x82\x90\xc6\xc7\x76\x3b\x0c\x82\x95\xdb\x3b\xe5\xef\x1d\xa2\xa6\x51\x49\xc2\xa0\x63\xd7\xf6\xb7\x0d\xf7\xcd\xbe\x5d\x99\xed\x08\xb6\x7a\x47\xac\x25\xe1\xef\x0d\xaa\xf2\x27\x79\x7e\xfd\x30\xe1\x55\xad\xb5\xaa\x32\x22\xd6\x51\x4a\xeb\x53\xd4\x77\x74\x36\x6d\x83\x02\xbd\x8d\x0c\xa1\x78\x46\x91\x23\xf5\x0b\x91\x65\x39\xbf\x67\xd2\xb8\xc1\x6f\x94\x75\x8c\xd1\x0b\xac\xaa\x7c\x8d\x22\x06\xc5\x66\x8d\xc0\x17\xae\xb7\x76\x3b\xf9\x8a\xcb\xb5\xdb\x36\x3c\x2f\x28\x41\xc8\x6f\xd5\xf0\xbe\xab\x50\x6b\xb0\x3c\x5f\x0f\x5c\x3f\x05\x13\x56\xc0\x98\x6b\x5d\xc3\x33\x1c\x36\x5e\x43\x81\x64\xaf\x4b\x7c\xcf\x1f\x26\xf9\x32\xe3\x99\x71\x83\xc7\x1c\x51\xc0\x35\x57\x3c\x4b\xf7\xa8\x11\x37\x38\x0d\x20\x7a\x5d\xb3\x7a\xa9\xa2\x01\x44\x37\xa2\x98\x45\x89\x3b\xf7\x8f\x1d\x41\x92\xde\xf1\x0e\x43\x8f\x2a\x83\x06\x9b\x34\x4d\x95\x36\x62\x34\xf3\x88\x82\x5e\x5f\x8e\x60\xc1\xaa\xb7\xa6\xe9\x9d\x21\xff\x66\x8b\xec\xb5\x7b\x60\x3a\x4e\x4b\x10\x04\x91\xc7\x46\xd1\x25\x6c\xb6\x83\x30\xf0\x6d\xd4\x6d\x18\x06\xa8\xeb\xdf\x23\x2a\x08\xc6\x80\x74\x68\xe1\x4c\x62\x0a\xef\x07\x50\xde\x61\xb3\x45\xec\x2d\x7f\x78\xf7\x25\x7c\x52\xde\x21\xb6\x41\x50\xb1\x42\x4c\xe2\xc6\x1e\x9d\xc6\xd1\xb5\x05\x61\xd7\x0d\x9f\x7f\xaa\x3e\x87\xac\xe4\x0a\x8a\xb2\x06\xfe\x20\x54\xfd\x25\x28\xce\xfd\x8d\x77\x4e\xb5\xf6\x69\x10\xa9\x24\x21\x7e\xce\x78\xce\x6b\x1e\x5b\x0c\x74\x5b\xb3\x00\x51\x4c\x1a\xf4\x6d\x1f\x8d\x1c\x1a\xad\xa2\x98\x9c\x4c\x32\x31\xd5\xc0\x46\x23\x68\x11\x4f\xc3\x0a\x82\x4e\xa1\x0a\x23\x6f\x0d\x71\x67\x17\x5c\x45\xb0\xdd\x25\xbe\x39\x80\xdf\xb2\x31\xcf\x79\xd6\xf0\x85\x89\x26\xcd\x78\x6d\xb9\x18\x39\xdf\xd1\x51\x33\xf3\xfd\x9c\x17\xae\xb5\xf4\x18\x97\x80\x19\xfe\x1b\x98\xf3\x46\x47\x62\x69\x3a\x83\x09\x51\x31\x13\xe7\x12\x13\x34\x6f\xa4\x98\x68\x83\xab\x59\x06\x99\xb4\x38\x54\xf1\xa2\x0b\x05\xd2\xe9\x34\xda\x5a\x34\xa5\x24\x8d\xbe\xbf\x2a\x3c\x2e\xb1\x61\xe5\xc1\xbe\x3c\xee\x10\xd1\x61\xdf\xba\x3e\x5a\x4a\xed\x21\x35\xa0\x75\x6a\x8a\x4b\x3e\xe1\x62\x85\x42\x8a\x9b\x25\x92\x89\xef\x10\x83\xd7\x9c\x3b\x30\x1e\x14\xdd\x60\x4d\x52\x42\xf8\xfa\x01\x11\x45\xde\xcc\x78\xcd\x44\xae\xd0\x62\xb6\x07\x0b\x81\x58\xb3\x97\xe5\xa2\x5e\xa7\x87\x84\x49\x6b\xed\xf1\xe2\x47\x50\xf4\xff\x24\xce\xff\x46\x89\xd3\x1a\x36\x80\xb3\x04\xd0\xe9\x51\x9b\x53\xdd\xd1\xaf\x5f\xdd\x5c\xe1\x3a\xb9\x3c\xdb\x1f\x45\xd3\xce\x1b\x8e\x31\x6c\xd5\x18\x08\x6e\xa7\x80\xad\x98\xc8\xd9\x38\xe7\xc6\x95\x98\xbd\xba\xb9\x82\x1e\x07\x81\x0e\x56\x1b\xb2\xf3\x1a\x55\x23\x25\x06\x50\x6a\x7b\x42\xe1\xc9\x68\x05\xa8\x34\xa3\x73\x69\xcc\x8d\xa4\x6f\x22\xdc\x2e\xe5\x75\x54\xc8\x1d\x6f\xdf\xf5\x43\x42\x3e\xee\x6a\x7d\xca\xa7\xa5\xe4\x31\x62\xfb\x82\x02\x6d\xb7\x25\x59\xa4\xc9\x00\x77\x6d\x67\x9e\x11\x1a\x53\xbc\xc8\xe2\xd6\x6b\xb7\x9e\x34\x4d\x13\x1d\xaa\xd9\x6c\xe0\xb6\xfc\xb6\xbc\xe7\xb2\x61\x44\x24\x15\x6e\xae\x35\x17\x3f\x43\x8c\xb0\x91\xcb\x0d\xba\x4e\x47\xb9\x77\xb3\xb1\x30\x1d\xcb\x91\xb7\x7e\x09\xed\xd5\xb9\x58\x53\x8c\x7c\xed\x76\xa0\x8b\x59\xd1\x4a\x09\x9e\xe9\x2c\x02\x92\xc1\xeb\x41\x86\xb3\xee\x70\x5d\x74\x76\x20\x37\x08\x7b\xb4\x08\x92\xa6\x29\x0e\x43\x12\xee\x9c\x01\x94\xc6\xcd\xba\x77\xbd\x6a\x67\xb7\x77\x6f\xbb\xf3\x01\x8c\xda\xf3\xe0\xfc\x09\x3c\xd9\x3e\x5a\x03\xec\x10\x9b\xde\x7b\x26\xbf\xb1\x35\x08\x9a\x0e\xf0\x78\xa8\xd6\x65\xb3\xea\xd3\x17\x7c\x14\x63\x7d\xf4\x62\x05\x8f\x9b\xa9\x92\x06\xfc\x11\x0f\x19\x1d\xa8\x9f\xd6\x45\x7e\x8f\x5e\x54\xd5\x72\xb2\xfa\x08\xaa\x17\xa3\x79\xcb\xf7\xbe\xce\x74\x99\xab\x8f\xf4\x96\x89\xd0\xe6\x00\x1c\xa7\xf2\x70\x08\x87\xce\x0a\x85\x2c\x2d\x6b\xe8\x68\x7a\x6a\x06\x50\x8f\xaf\x70\x9b\x74\x40\x09\xb3\x5f\x5c\xd6\xca\xc4\x9b\x48\xae\xee\xd1\xc8\xb9\xc5\x18\xf5\xc1\xa0\x96\xbc\xc8\xca\x05\x13\xc5\xa1\xce\x29\xdc\x48\xb1\x60\x52\xe4\x6b\x1b\x07\xf3\x83\x66\x46\x4c\x1f\x5a\x47\xfc\x7e\x9f\x47\x70\x2d\xaf\xf8\x87\x86\x27\xb5\x7f\xee\x3d\xb5\x23\x24\xda\x23\xa7\x31\xa7\x78\xe4\x6e\x27\x3f\x1c\xd8\xa6\xeb\xe2\xe4\x6d\x3a\x28\xb1\x3a\xf7\xc9\x8c\xb0\x5d\xfa\x36\xea\xf8\x16\xd0\x14\x7a\xc3\x0e\x6c\x6b\x95\xaf\x4f\xda\xa7\x83\x0b\xe9\xda\xa8\xae\x90\xc9\xa1\x9d\x52\x3a\x65\x62\x47\x9d\x70\x8e\xbc\xcd\x52\x55\xd7\x6e\x7d\xc3\x73\xcc\x16\x84\x86\xd1\x3a\xb5\x6b\xb7\x1c\x5a\x64\x60\x13\x5e\xe9\x8b\x67\xc9\x6e\x07\xc4\x17\xa5\xe9\xdd\x00\x56\x8d\x41\xb8\x70\x96\xec\xaa\x15\xab\xd1\x79\x7b\x0e\x77\x7c\xad\xb7\x3b\x43\x93\x77\x5c\xd6\x73\xa4\xb1\x9d\x85\x32\xde\x10\xdf\x25\xe4\x9d\x60\xd7\x3c\x87\x1c\xf7\x8b\xa0\x30\xf2\xc9\x74\x5c\xf6\x8a\x15\x65\x21\x26\x2c\xff\x86\xb3\x8c\xcb\x5f\xf0\xb5\x75\x5d\x70\x22\x55\x52\xb4\xb8\x26\x4f\xd0\x82\x98\x4c\xb8\x0d\x92\x70\x51\xcf\xb9\xa4\x99\xb1\x1d\x49\x31\x72\x6b\xfd\x5e\xd4\x73\x9d\x5e\x41\x12\x0d\xf4\x5a\xdf\x7e\xf1\x2e\x39\xda\xb1\x07\xbb\xf8\x2e\x69\x20\x90\x53\x40\xdb\x37\xa9\x1f\xb4\x46\xb6\x86\xe1\xe1\x7f\x7a\x1f\x4d\x48\xfa\x6c\x63\xf3\x25\xbf\xf7\x46\x9b\xe9\x75\x7a\x82\x62\x4c\x30\x66\x93\x3b\xdc\x9e\xb5\x3d\x33\x26\x96\x8f\x6b\x2d\xb8\x4e\x8d\xa4\xf0\xbc\xc6\x7d\xa4\xac\x00\xb1\xab\x18\x0b\x74\xe9\xec\x16\x50\xd0\xbb\x2e\x21\x13\x2c\x37\x91\xf1\x9c\xd5\x5c\xc2\x04\x93\x6c\xe8\xa3\x73\x1f\xa6\x61\xd0\x16\x76\x31\x36\x1b\x2d\x9a\x1a\x7c\xaf\xca\xa2\x38\x60\xb1\x9a\x4e\xd6\x62\x8d\x7b\x4c\x56\xff\xc8\xa1\xa1\xb0\x1b\x94\x0d\xf6\x3d\x18\x3f\xc0\xda\x88\xb6\x60\xc5\x64\x97\x44\xb1\xf6\xdc\xbe\x23\x1a\x06\x9b\x6e\xe3\xd1\x0d\x19\xed\x9b\x8f\x44\x0c\xcd\x75\xb8\x7e\xeb\x6f\x7a\x38\x7d\xb5\xcc\x73\xeb\x08\x35\xee\xe8\xcd\x53\xff\xdd\x75\x71\xc4\xb0\x7c\xc6\x8f\x19\x96\x47\xa4\x91\x89\xb3\x05\x8d\x01\x8e\x8f\x89\x5b\x7c\xac\xdd\x48\x4d\x5d\xb2\x42\x9d\xa0\xb2\x52\xcc\x76\x55\x47\xad\x70\xb8\x20\x3b\xdc\x61\x6a\xc7\x5e\x62\x9a\xe3\x00\x89\x07\xcd\xbc\xc1\xd6\x8a\x4c\x14\x95\xb8\x72\xa0\x73\xf1\xe3\x8d\x90\x03\xda\xed\x19\x3f\x45\xbb\x1d\xd6\x57\xa7\x1a\x21\xa4\x49\x7a\xb4\x9b\x39\xda\x74\xf6\x9e\xf1\x33\xb5\x1b\x2e\xe6\x95\x46\xe6\x44\xf5\x86\x5d\x9d\x29\x82\x4a\xf7\x2c\x05\x57\xe5\xeb\x2e\x0d\xe7\x6f\xdb\x8f\x37\x4a\xfa\x6d\xc7\xeb\xe2\x04\xdb\xf1\xf8\x86\x78\x26\xe4\x81\x1d\x3e\x68\x3b\xb6\x76\xed\xd0\x3a\xba\x4d\x12\x5a\xe2\x69\x5b\x76\x6e\x36\xe7\xb0\xed\x48\x58\x68\x9d\xaa\x6e\x4b\xdf\x1c\x31\x27\xa5\x4b\x9e\xd3\x3c\x78\x4e\x0c\xa3\x1e\x80\x12\xdf\xf1\xb5\x82\xb7\xef\x6c\x8c\xef\x08\xbc\x93\xb2\x61\x8b\x0c\x1e\x1f\x33\x85\xb4\x2a\xa8\x98\x90\xcd\xe4\x61\x60\x23\x7e\x77\x8d\x81\xa4\xd1\xdb\x50\xf8\x6b\x65\xa3\x7d\x93\xfa\x21\xd5\x34\x89\xef\x92\x94\x22\x9b\xc9\x97\x60\xa3\x7e\x81\x01\xec\x02\x1e\xfa\xd1\x98\x23\x2e\xbe\x85\x42\x14\x61\xea\xb6\x96\xed\xf5\x78\x91\x61\xdc\xcc\x2e\xe0\xe7\xa5\x28\xe2\xc7\x8b\x6c\xd0\xbc\xba\xc1\x31\xb1\x1e\x89\x51\x93\xc4\x82\x23\xca\xa0\x6d\x42\x41\xb3\xf3\x2a\x34\xbe\xb9\xbd\xbd\x21\x6f\xc1\xbe\x3b\xfe\x6f\x18\x86\x3a\x47\x6f\xa8\x5c\x68\xf6\x82\x11\x44\xac\xaa\x72\x31\xd1\x35\x34\xba\xd2\xf1\x4b\x98\xcc\x99\x54\xbc\x1e\x2d\xeb\xe9\xc5\xcf\x22\x17\x49\xc3\x59\xc9\x9d\xa5\x54\x3c\x32\xd6\x9c\xde\xe8\x33\x7b\x3c\xc2\x86\xc0\xca\x02\x2a\xc9\x4d\x3d\x4b\xa6\x0b\x2a\x14\x9d\xb9\x9d\x69\x8e\xc6\xd5\xda\xd5\x47\xed\xb8\x9a\x5f\xe9\x61\x2d\x12\x31\x85\x54\xc3\xd7\xc6\xbb\x27\xb7\x76\x62\x3b\xc8\x3b\x6f\xdf\xf5\x43\xd7\xfb\xdf\xd5\x4c\xc1\x36\x33\x07\x5a\xa7\xaa\x15\x6b\xeb\x1e\x74\x8d\x92\xdc\x88\x1b\x19\x73\xef\xa1\x7f\xc8\x93\x69\xcd\x65\xbc\xdb\x52\x5f\x35\x5b\x1b\x7b\xdb\x9c\x68\x40\xfb\xab\x3c\x29\xd2\x47\x21\x1f\x1d\xd5\x5b\x20\x61\x16\xcb\x07\xb4\x9e\x5e\x95\x4b\xc4\x21\x09\x3d\x8b\x82\x52\x16\x97\xa3\x5e\x32\xbb\xae\x63\x2c\x13\x29\x66\x08\x90\x86\xa5\x4f\xcd\x2b\x0a\x63\x2f\xec\xb8\x18\x8d\x2e\xea\x8e\x15\xcd\x63\xf8\x6b\xb8\x2d\xdf\x60\xc5\xe6\x76\x1b\x25\xba\x40\xaa\xd5\x07\x5f\xdc\xf2\x45\x85\x56\xb1\xee\x61\xd9\xa9\xa7\x58\x4d\x07\x10\xdb\x11\x44\xc2\x68\xcf\xc0\x71\xd6\x1c\x2e\xcf\x9b\x52\xa7\x54\x9c\x7a\x30\x1d\xcd\x8e\x62\xc7\xaf\x4d\x66\xcc\xaa\x61\xd3\xdc\x15\x4c\x0c\x74\xb2\xa0\x09\xb2\xf9\x3f\x49\x68\x2c\xc8\xa8\xf2\x99\xc6\xa4\xe0\xb4\xdf\x60\xcc\x02\x9b\x4c\xb3\x33\x7e\x8f\xed\x72\x80\xbe\x47\xc6\xa7\x6c\x99\xd7\xa8\xed\x0c\x83\xe0\x89\xb4\x05\x68\xbb\xb2\x60\x00\x0c\xc6\x65\xa6\xdd\x3f\x7c\x36\xa9\x2f\x74\x02\x23\x3d\x4f\xe4\xfc\xc6\x15\x4a\x59\x04\xa5\xdf\xa7\x1a\xbb\x38\x31\xde\x09\x03\xa5\x53\xdd\x80\xf4\x40\x50\x7f\xfe\xc5\x17\x29\x3c\xa7\x64\x18\xf6\xf4\x63\xa4\xe6\xdc\x70\xa9\x4b\xc9\xb1\x47\x25\xcb\x95\x40\xc7\x76\xae\x5b\xb0\x4a\x20\xcf\x31\xf7\xae\xb1\x35\x39\x48\xec\xd7\xd8\x64\x3e\x68\x84\xe2\x41\xc7\x55\xa4\x2f\x98\x54\x73\xa6\x2b\xc0\x2c\xfe\x0b\xf3\x0a\xd3\xf7\x6a\x39\x99\x70\x9e\x29\xe3\x49\xfd\xfc\xf5\x77\x2f\xa9\x22\x3d\xb3\xe5\xe3\xd6\x15\xd3\x6b\x75\xe8\x60\x3e\xb4\x7f\x59\x26\xdb\x8f\x17\x02\xe4\xc0\x3a\x78\x6e\x65\x4d\x63\x0b\x1a\x88\x42\xd5\x9c\x65\x96\x66\x46\x48\xfa\x12\xa2\xcb\x10\x71\x85\x23\x03\xb8\x37\xf5\x6e\x6d\x36\xd0\x36\x23\xee\xea\x00\xde\xe3\xf1\xf3\x49\x62\xc4\x0f\xa6\x1c\x2b\x2e\x37\x7a\x17\x2f\x71\x2d\x76\x43\xd1\x12\x11\x53\x4b\x2d\x24\xa0\x51\xb4\xd8\x25\x6e\xd3\xb6\xd1\xb3\x62\x0a\xd8\xf4\x54\x4f\x49\x43\xaf\x4d\xcc\xd4\x01\xb2\xe3\x90\xdc\x71\xf2\xa5\x9d\x01\xbb\x8d\x3c\x9d\x8b\x68\xc3\xc8\x81\xb3\xee\x7e\x70\x9f\x1a\xb6\x89\x93\xf4\x35\xaf\xe3\x88\x04\xe1\xc5\xed\xba\xe2\xd1\xc0\x57\x79\x66\x01\x73\xcb\x64\x3e\xfe\x6d\xf1\x60\xf9\xb0\x59\x87\xe5\xbf\xcb\x91\x1b\x4f\xbd\x14\xba\x60\xda\x2a\xf1\x4c\x12\xdb\x1d\x87\xfa\x08\x3e\xe3\x79\x7c\x67\x93\x82\x36\xd4\x83\xc7\x47\xf5\x8c\x25\x6b\xc7\x0b\x07\x51\x77\x0d\xd9\x07\xfd\x24\xcb\xe2\x1d\xeb\x05\xff\x4f\x9f\x3b\xc4\x1a\x99\xc1\xf0\xda\x73\xb4\x4b\x0b\x96\x7b\x1a\x48\x13\x46\x4d\x0e\x90\xc4\xe3\xe1\x86\x2a\x1a\xf8\x08\xd4\x84\x20\x63\x33\x79\xa4\xf7\xa9\xe6\x38\x42\x0f\x3b\x26\xee\x65\x8c\x5b\x99\xa0\x30\x6b\x98\xda\x38\x4a\x32\x1e\x2f\xa7\xf0\xf6\x1d\xd6\x1f\x27\x74\x90\x36\xa1\x36\x04\xef\xc1\xe7\x4f\x17\x40\xb7\x4c\xfc\xa6\x20\xb6\x41\x08\x03\xf8\xec\x3e\xf9\x72\x37\xc0\x6e\x4c\x20\x25\x7e\xcb\x61\x04\x3f\xfb\xff\x7f\xf9\x17\x86\x3f\x73\x5e\xe0\x98\x04\xfe\xca\xb4\x61\xd7\x00\xd1\x18\xc1\x78\x39\x7d\x7b\x89\x2f\xdf\xd1\x96\x91\x20\xc6\xf2\x14\x4d\xb7\x69\x1c\x59\xd1\x03\xb8\x28\x9d\x27\xbe\xc4\xd8\x18\xa6\x89\x2b\xb4\xa5\xa0\x28\x8b\x0b\x64\x5a\xe7\x25\x60\xc7\x68\x80\xc0\x29\x07\x4c\x50\xa9\x1e\xfa\x25\xbf\x8f\xef\xcd\xa1\xd3\x34\xd2\x02\xda\x5f\xbb\xad\x4a\xd8\x84\x81\xee\x85\xcf\x28\xbc\x7e\x8d\xb3\x5c\x92\x74\xfe\x35\xe9\x0a\x64\x6c\xea\xc5\x6a\xa1\xa6\x02\x6f\xe2\xcc\xb9\x13\xb5\x5a\x4a\x7b\x9b\xdb\xf8\x30\x0a\x84\xbe\x34\x63\x6f\x0e\x9d\x52\x19\x9f\x9a\xcc\x95\x37\xa9\x43\x55\xa3\x85\xb7\x3d\xec\x54\x38\x53\xe8\x0e\x16\x80\x5f\x2c\xe0\xec\x7d\xcb\x23\xf1\xbc\x01\x9a\x78\x02\x35\x4e\xa0\x5d\x80\x37\x4f\x9b\x19\x7a\x46\xbb\x73\x4b\x76\xa2\x7e\x6c\x81\x20\xa4\xc2\x56\x70\x7e\x37\x7c\x71\xd4\xe0\xf1\x02\x5e\x47\x2c\x1e\x17\xf1\x38\x68\x5a\xec\x7a\xd0\x1a\xfb\xee\xec\x8b\x4e\xd2\x9a\xbb\x53\x38\x06\x25\xeb\x05\x29\x32\xdf\x39\xb6\xf3\xdc\x30\xc9\x8b\x9a\x1c\x4e\xc7\xa7\xba\xac\x0d\x75\x1d\x62\x65\xdf\x6a\xc8\xc8\xc1\xc7\x82\xfb\x81\x17\xff\x38\xb8\xac\x4e\x87\x1a\x1e\x93\xf6\xd2\x5d\xfa\x9d\xe9\x20\xe3\x53\x2e\x41\xa6\xa8\x12\xd2\x2b\x8c\x82\xa2\x00\xd2\x12\x03\x1d\xed\xc6\xb7\xde\x59\x2b\x41\x46\xb5\x80\x16\x16\x1e\x78\x97\xcd\xa3\xbb\x0b\xaf\x38\xcb\x9e\xe4\x79\x6c\x80\x9f\x56\x31\x69\x2f\x34\x4c\x51\x9b\x0e\x20\x22\x49\x20\x51\x93\x5b\x6b\x0a\x57\x66\xc9\x19\x59\x65\xd0\x16\x44\x5f\xe8\xb5\x05\x4b\x2b\xd4\xd0\xef\xba\x1c\x81\xbb\x13\xd4\x88\x3b\x32\x22\x75\xf7\xe0\x49\x9e\x97\xf7\x37\x4c\xd6\x82\xe5\x18\xb2\xab\xe5\x92\x2c\xce\x67\x42\x4d\x98\xcc\xde\x14\xfa\xfe\xd6\x65\xd3\x62\xcb\x46\x70\xe9\x23\xf0\x27\xdc\x13\xa9\x98\xb8\xdc\x13\xaa\xdd\x62\xb5\x5f\xb0\x76\x8a\x56\x42\xa3\x45\x4c\x77\x60\x37\x1d\x64\x25\xea\x7d\x94\xcc\x35\x04\x09\x3c\x85\xf8\x94\x65\xc4\x0e\xd4\x86\x08\x34\x68\xb9\x50\x00\xba\xab\x37\x4c\xb2\x85\xb2\xbe\xd0\xaf\x98\x54\xb1\x4c\xa8\x52\xa7\x69\xc7\xc0\xc1\x87\x25\x97\xeb\xa6\xbb\x4c\xdf\xbc\xfa\x36\xfd\x25\xbe\x8c\xed\x00\xaf\x4b\xe8\x3b\x48\xa6\x4a\xf6\x72\xd4\x70\xad\xbe\x7b\x42\xde\x91\xae\xb3\x29\x6c\xb7\xf4\xdb\xd2\x78\xf0\x10\xe9\x45\x9a\x3e\x18\xc4\xd5\x50\xd2\xaf\x79\xa1\x27\x75\xbb\x89\xae\x53\x2b\x62\xec\x7e\x1d\x46\xe1\xbb\x82\x97\xd3\x3d\x3c\xf8\x87\x7d\x3c\xf4\xb2\x7e\x0c\x22\xee\x58\x7d\x26\xf9\x87\x26\x1b\x4e\x1e\x91\x0e\x53\xdb\xae\x4d\xd8\xb1\xc3\xdb\xea\x94\x98\x7d\x79\x50\x23\x1f\x95\x75\x3d\x9c\x5e\x67\x4a\xcb\xcf\x5d\x57\xc3\x38\x5e\xf2\x8c\x1c\x67\x07\x82\x5d\xb2\xaf\xd3\x70\xef\x4b\x7b\x3a\x13\xa9\x4f\x50\xbc\xd8\x13\x13\xbb\x42\xc2\xc9\x82\x37\x8a\xdf\xa0\x80\x41\x79\xa9\x7c\xf1\xf1\x46\xf1\xeb\x62\xb9\x78\xb9\x5c\x8c\xb9\x54\x97\x4d\xc3\xf5\x42\xd4\x6f\x8a\xaa\xac\x96\xe8\x6f\x67\x4e\xac\x6c\xc3\x96\x3c\x6d\x70\xb3\xe8\xb8\xba\xf7\x34\xd6\xa8\xa6\x2f\xb8\x52\x6c\xc6\x93\x43\x95\x11\x96\x0d\xde\x0f\x48\x5a\x39\x73\x52\x5b\x52\x5e\x2f\x3f\x4d\xeb\x8a\x23\x15\x19\x03\x5d\x01\x9a\xee\x20\xe5\x9e\x16\xea\xcb\xd7\x36\xd6\xb9\xf4\xcc\x89\x83\x19\x5a\x04\xbc\x9f\x9d\x9d\x33\x05\x73\x96\x85\x3a\xa9\xda\x97\x8f\xd5\x59\xc0\x0c\x6b\x40\x05\x86\x9c\x1b\xfe\xf6\x2f\x52\xd7\x73\x6e\xa0\x18\x43\x4a\xa5\x56\xe9\xbb\x34\x30\x32\x33\x86\x72\x5d\xcc\xd2\xa2\x43\x1e\x2e\xa2\xad\x4a\x03\xa4\x9d\xf4\x3d\x98\xee\x3d\x98\xc4\xbd\x1b\x38\x0a\xa5\x5f\xf3\x3a\xbe\xc3\x0d\x3f\x9c\xf7\xdd\xc1\x3f\xbe\x4b\xba\x60\xa0\x7c\x46\x72\x2f\x0b\xde\xdc\xd7\x9a\xcc\x51\x96\xa5\xba\x85\xe5\xaa\xc4\x2d\xa0\x33\xac\xa5\x3d\x2c\x65\x1e\x1e\x9e\x3d\xa2\xae\x17\x78\xad\x7b\x40\x42\xfc\x86\xd5\xf3\xe4\xd8\x40\xb7\x2b\x58\xe5\x8f\x3c\x87\x42\x24\x4a\x3e\x3a\x3d\x8d\x20\x28\x23\x63\xdf\x9d\x91\x9e\xf6\x46\x37\xf1\xdb\x8e\xec\x74\x01\xd8\x93\xa4\x17\xe4\x62\x85\x56\x2b\xab\x89\x6a\x8b\xb2\xd6\xc1\x0b\x8c\x4d\xb0\x02\x2f\x85\x7d\x8f\x15\xfe\x95\xb9\x7e\x66\xde\xa1\x9c\x9c\x94\x0b\x6e\x6e\x45\x34\x93\x64\x42\x4d\xf0\xab\x06\x6b\x50\x6b\x55\xf3\xc5\x00\x94\x2e\x36\xcf\xc5\x1d\xcf\xd7\x96\xe9\x90\x8d\x20\x9a\x97\xaa\xbe\x44\x8e\x8e\x48\x80\xb6\x56\x10\xbb\xa9\x6c\xbd\x72\x6f\x58\xf8\xfc\xe4\xb5\x98\xc2\x27\x96\xe5\xae\xe8\x63\x08\x6e\xc2\x01\x44\x97\xc3\x61\xa4\xa3\x28\x81\xc3\x62\x04\x11\x1e\x55\x6c\x81\xff\xe7\xe8\x80\x3c\x19\x2c\x9d\x0c\x5c\xca\x3c\xbd\x41\xdb\xc4\x01\x3b\xb9\x08\x0c\x4d\x8b\x65\x48\xb7\xa2\xd1\xaf\xec\xf0\x37\x28\x75\x6b\x6e\x4f\x44\x2f\x4b\xb3\x8d\x5e\xe4\xdc\x54\xef\x6b\x72\x98\x38\x13\x02\xba\x2f\xe5\xdd\x80\x6e\x97\x02\xe9\x79\x74\xfb\xf0\x7a\x9f\x34\xd6\xa6\x69\x15\x48\xc0\xa8\x89\x08\x6b\x63\xe1\x74\x4f\x28\xd8\x6c\xf0\xb6\xf4\xae\xeb\x43\x48\x63\xab\x0e\x2e\x5a\x53\x03\xc5\xa9\x28\x32\xfe\xb0\x3f\xe2\x0b\x3b\x86\xea\x04\x76\x7d\x8a\x43\x65\x02\x68\x6a\xe8\xff\x06\x07\xc6\x75\x5c\x6b\xf6\x6a\x05\xa8\x0c\xa0\x37\x22\x4d\xf6\x63\x30\x29\xab\xf5\x9b\x57\xdf\xc6\xcb\x01\xf8\xfd\x9f\x32\xc5\xe9\x4e\x6f\x62\xbb\x36\xb6\xc1\x3e\x56\x6d\xab\xb4\x1d\x7e\x26\xca\x74\x54\x14\xec\x95\x0b\x04\xbb\x15\x03\xd6\xb2\x6d\x76\xb3\xf5\xbb\xf9\xe9\x84\x55\x67\x11\xc1\xc1\x7d\x87\x8b\x3f\xd5\xce\xf7\xc5\xe8\xa9\x48\x61\x97\x88\xb6\x99\xaa\x2d\x0e\xae\xd7\x2b\x5e\xd0\x72\xc7\xee\xe3\x98\x29\x0e\x8f\xf1\x0c\xbf\x79\xf5\xed\x40\xe7\xad\x48\x31\x25\xee\x35\x9e\xdf\x02\xad\x82\xcb\x11\x3c\xc6\x01\xe6\x51\xe7\x28\xc8\x39\x70\xe4\xfc\x0c\x5b\x28\xbc\x70\x55\x3f\xd8\xac\xeb\x6b\xb4\x6e\x27\xba\x7a\x7e\x29\x29\x50\x83\xec\x68\x0f\x6e\x5d\x42\xb5\xcc\x73\xfd\x9e\xb4\x1c\xcf\xb0\x02\x4c\x41\xb9\x44\xc5\x6d\x8d\x57\x52\x4a\x3a\xb8\x43\x4a\x6f\x61\x0d\x58\xdf\xfd\x44\x4b\x81\x82\x1d\x29\xc0\xcb\xb2\xa6\xdb\xc0\x08\x12\x61\x69\x49\x31\x67\x2b\x0e\xf6\x33\x27\x87\x0d\x12\x3d\xcf\x58\x27\xc2\xe8\x42\x9c\xbe\xf1\x83\x72\xdf\xa2\x86\x77\xab\x29\x75\xc0\x6c\xc5\x93\xb6\x3c\x70\x55\x6b\x17\x03\x77\x59\x43\xff\xba\x1e\x97\x4e\xdd\x52\xd6\xba\x4d\x3b\x93\xa9\xf6\xae\xa3\xf4\x6b\x03\x3f\xde\xd3\xd1\x89\x92\x79\x07\xae\x73\x9e\x60\x1b\xfe\x64\xb9\x6a\x67\xef\x60\x80\x7b\x37\xc8\x6b\x97\x61\x52\xca\x09\x72\x15\xd2\x1a\x25\x4a\x5f\xe5\xcd\x51\x81\xbd\x1b\x90\xea\x14\x36\x07\xe3\x51\xbb\xde\x15\x05\xa3\x8c\x2d\xb6\x1b\x90\xb2\x31\x1a\x9a\xc6\x8e\x36\xc1\x99\xc6\xf3\xd9\x0d\x48\xd1\x6b\x74\x7b\x8d\x91\x47\x09\x18\xd7\x82\xe6\x34\xd3\xc1\x80\x3f\xfb\xe2\x0b\x3f\x13\x35\x80\x7b\x4a\xb7\xe8\x70\x67\x25\x39\x9a\x38\x4c\x9f\x07\x56\x68\x58\xda\x24\xd0\x8c\xca\xea\x1a\xbf\x2e\x81\xe7\xc7\xac\xc2\x3f\x7f\x14\xbe\x86\x85\x71\x60\x1a\x1c\x2d\x12\x47\x03\x66\xb6\xf2\xa4\x23\x60\xd6\x49\xf6\xc3\xf1\x32\x33\xe9\xf9\x01\xb3\x73\xe2\x5f\x23\xec\x92\x5e\x7f\xf7\x55\x6f\x08\x0c\x63\xd8\x4d\x64\x1c\x19\x43\x93\x00\x90\x8e\x6b\x3f\xe6\xb5\x63\xfe\x74\xc1\xc2\x70\x5a\x47\x34\xcd\x01\x25\x70\x06\x9e\xf4\x32\x11\xf0\x49\x2b\xed\xf1\xdd\x2f\x0e\x4e\x31\x8d\x77\xf3\x10\xc9\x00\x22\x8f\x67\x2e\xe1\xf3\x4f\xb3\xcf\xa3\x41\x6b\x0e\x37\x37\x9a\x23\xb8\xe0\x63\xdc\x1c\x9e\x1d\xd5\xeb\x0d\xea\xf5\xc5\xf4\xb6\xe1\xe9\x11\x3d\x55\x25\x5f\x1e\xdf\x04\x9f\x28\x76\xc1\xd4\xe9\xb3\xa6\x48\x3a\x68\x47\x65\x7c\x01\x74\x5d\x9c\x29\x80\x5c\x4f\xcf\x30\xd8\x33\x09\x2e\x48\x54\x9d\x60\x42\x1d\x8c\x04\xb9\xd8\x79\xe8\x7c\x5d\x0a\x06\x01\x3b\x3d\x5c\xae\xbf\x5c\x81\x27\x7f\xc5\xa4\x28\x97\x0a\x50\x9d\xa0\x15\x86\x7a\x39\x18\x0e\xf7\x95\x6f\x8c\x76\xc4\x00\x74\xb8\xcc\xa4\xcb\xf1\x90\x24\x56\x14\x9c\xb0\xac\xc3\xb2\x40\x77\xe9\xa9\x4e\x73\x81\x23\xfc\xfe\xd6\x8a\xe5\xb8\x17\x51\x44\x71\x49\xf3\xea\xf0\x97\x07\x76\x88\x41\xb3\x19\x26\xb7\xf1\x4d\xc9\x3f\x84\xe1\x8e\xfa\xea\x75\x8c\x77\xfb\xf5\x7b\xde\x26\x26\xf1\x5a\xcb\x6c\xbc\x9e\x5f\xcf\x31\xec\xcb\x16\xbc\xc6\xa4\x0d\xde\x21\xaf\xe7\x88\xb6\xf5\xe3\x74\x79\x96\x4d\x29\xed\xdc\x3f\x55\x5c\x07\x87\x5a\x91\x4e\x9c\xe5\xb5\x79\xef\x42\x9d\xb6\xe3\x76\xf7\x16\x2a\x9a\x8c\xd1\x50\xe3\xdf\xe5\xed\x21\x2e\x87\x53\x07\xbb\x32\x08\xe5\x5c\xb9\xcc\xb3\xe2\xf3\xba\x39\xbd\x66\x95\x9f\x7e\x88\x8c\xf1\x69\x25\xa8\xa1\xca\x2b\x76\x4f\x46\xe6\xd2\xfe\x76\x6d\xae\x01\x7f\xec\x50\x4e\x33\x5e\x9b\x74\x5e\x32\x7a\x27\x5e\x8d\x02\xae\x5e\x54\x94\x9c\xa5\x0d\xae\x17\x55\x9b\x9c\x7d\x91\x6b\xb0\x74\xbc\x80\xd3\x82\xc6\x62\xaa\x0f\x04\x75\x7b\xc5\x2b\x8e\x11\x46\x3b\xec\xb9\x7a\xca\x3c\x89\xda\x40\x8e\xad\xcf\x6e\x7b\x7e\x5d\x62\x2f\x88\xec\xf6\x47\x89\x1d\x61\x96\xfa\x36\x72\x01\xea\x5f\xba\x68\x3c\x95\x78\xbf\x33\x2c\x9c\xba\x1e\x57\x6c\xc1\xa9\x26\xbc\x99\x95\xe7\xca\x3d\xef\xa7\xeb\xfb\xc6\xdb\x6c\x08\xa1\xa1\xd3\xf7\x07\x50\x19\x78\x9f\xe8\x8a\x57\x18\xf1\x6a\xb2\x26\x2d\x6e\x44\x9c\x10\x23\x24\x46\x29\x21\x46\x7d\xb9\x47\xb4\x64\x97\xae\x16\x7f\x4d\x77\x6a\x7b\x5d\x33\x79\xfd\x50\xc9\xed\x56\x4c\xfb\x97\x61\x19\x1a\x1a\xcf\x2a\x08\x82\x7a\x41\x77\xe3\x76\x4a\x4c\xfa\xc0\xd0\x7a\x3a\x0e\x49\xe7\x39\xa1\x63\x32\x65\x22\x37\x35\x40\xf6\x94\xf4\xc1\x8f\xda\x04\x23\x91\x67\x25\x44\x5c\x2f\xaa\x24\x3c\x6b\x37\x0c\x84\xe4\x10\xd5\x60\xdb\xa2\x89\xd9\x16\x4b\xa0\xcd\x66\xf8\xf8\x0f\xff\xfa\x37\x3f\xfc\xfe\x9f\x7f\xf8\xa7\x7f\xfb\xe1\xef\x7f\xf7\xc7\x7f\xfc\xdb\xff\xfc\xf7\xff\xf8\xc3\xef\xff\xee\x87\x7f\xf9\xdd\x1f\x7f\xf7\x0f\x8f\x87\x70\x71\x78\x4f\x1c\xc1\xfa\x96\x0c\x9f\x8c\x7c\x22\x7e\x04\x9b\x3d\xee\x03\xbd\xc7\x7e\xfe\xca\x3e\x62\xa2\x63\xf3\xb4\xc9\xd8\x94\x24\xee\x3c\xd1\xc3\x76\xdb\x16\x49\x25\xe6\xad\xfa\x32\x59\xfb\x72\x49\x77\xef\x97\x4b\x0d\xd8\xca\xe9\x0d\x33\x84\x6c\x36\x68\xed\x9b\x3b\x82\xa5\x6e\x6d\x9f\x41\x7a\xb7\x7b\x08\xd1\x8e\x5d\xe1\xf5\x1e\x53\x8c\x43\xd4\xa1\xce\x1e\x79\x74\xe9\xb8\x05\xa2\xb3\x73\xa4\x7d\x3d\xcf\xf1\xc0\x59\x5c\xb1\x3c\x6d\xd4\x39\x81\x21\xc2\xdb\xb1\xdd\x07\xf2\x63\x8e\x64\x0b\xbe\x3d\x8e\x8e\x85\x0e\x1d\xc9\x3d\x96\x22\x50\xc7\x4e\x65\x37\x7b\xfe\xc4\xc4\x3d\x19\x35\x8f\xdd\x0f\x11\x7e\x0f\x77\x9f\xdb\x77\x1e\x5b\x4f\xf4\xa0\x03\xb3\x8d\x59\xa0\x11\x81\x11\xd5\x98\x91\xc1\x1b\x6b\x0b\x8a\x58\xbe\xf0\x4c\x39\x1d\xce\x8c\x66\xbc\x36\x9f\xad\xf4\x4d\x05\x34\x4c\x3d\x4b\x61\xa0\xab\x41\x31\xe6\xc4\x28\xcb\x62\xa3\x4b\x64\xb5\xd9\x8f\xa1\x2c\xd8\xda\xdc\x12\xd4\x59\x03\xf4\x7b\x01\x77\xe3\x7e\xce\xf1\xbb\x92\x01\x31\xc9\xae\x1f\xf4\xe2\xb8\x17\xd4\xb8\x41\xbd\x69\xcb\xfe\xbc\x65\x6f\xe2\x52\xf3\x0c\xde\x49\x70\x96\x9c\xc3\xd0\x9d\x9b\xa3\x5f\xcf\x3a\x64\xd0\x19\xbf\x42\xfb\xad\x18\x6b\xc0\x03\x09\x9f\xae\x22\xf7\x4d\x2e\x9c\xdf\xd4\x9b\x80\xf3\xc3\xdd\x37\x34\x63\x2c\x8b\x53\x58\x80\xfd\x74\x39\x9d\x72\x19\x23\xa6\x7e\xd9\x30\xf8\xb9\x73\x72\xc9\x82\xfd\x4f\x75\x6d\x36\xa7\x7e\xba\xf4\xd4\xe4\xd4\xcb\x27\xb7\xaf\x3f\xe6\x56\x82\xad\xae\xc2\xf1\x60\x42\x7a\xee\x99\x6e\x2a\xe2\xd7\x50\x11\xd1\x62\x00\x4a\xae\xcc\xb3\xfb\x12\x1b\x39\x31\xfb\x1f\x81\x3b\xf5\xb6\x61\xd7\xbd\xc1\xd7\xcb\xb1\xdb\x7e\xc4\x01\xb5\xd7\x92\xbf\x5e\x8e\xd5\x44\x8a\x31\x8f\x77\xee\x09\x92\xbc\xf0\x6e\x0a\xa1\x63\xd3\xd5\x07\x25\x94\x5c\xf9\x5f\xa9\xd0\x40\xf8\x0b\x35\xd3\x8b\x4d\x8e\xf2\x15\x71\x08\xfa\x56\xdd\x88\x7b\xf7\xf0\x3c\x36\xd8\x6c\x5a\x1f\x6e\x60\x77\xdc\xdb\xb0\x53\x3f\x8d\x82\x43\x4e\xf8\x34\x4a\x03\xf9\xe8\x15\x8e\xd6\x77\x71\x53\x47\x60\x2a\x8c\x4f\xfc\xbd\xee\xf9\x24\xca\x61\x08\x94\x83\xff\x9f\xf7\x65\x94\x66\x5d\x47\xef\x64\x12\x93\xba\x3d\xbe\x84\xf6\x9a\xf1\x26\x83\x5b\xf6\x59\x9f\x43\xc1\x8d\xf2\x7a\xd8\x70\x01\xdd\xe8\xbe\x2e\x3a\xfb\x78\x69\xa6\xa6\xc7\x4e\x51\xcb\xb9\xdf\x4b\xf1\x76\xd9\x2b\x9a\x3f\xff\x7b\x29\x1e\x1c\x57\x21\x7b\x9c\xb8\xde\xf2\x00\xe0\x71\x9b\xba\x0d\x69\xf7\x3e\x7f\x42\x33\xed\x86\xd6\xfb\xe6\xf1\x82\xbb\x48\xb2\xcd\xa6\x4d\xf6\xee\x24\xc3\x42\xcd\x48\x00\xbe\x50\xb3\xfe\x98\xee\x7e\xb1\x63\xd7\x45\xc2\x03\x25\xd3\x0b\x35\x4b\x9f\x69\xad\xd7\x5d\xe4\xd7\x95\x95\xb6\xbc\xdc\x73\x2b\x91\xc8\x43\x81\xbf\xa6\x4a\xab\x83\x5f\x76\x63\x73\x7a\xc1\x27\x54\x69\x61\xdc\x08\xca\xf1\x6f\xb0\xfa\x80\xac\x0f\xe5\xf6\xcb\x7e\x81\xe2\x05\x2b\xd6\x26\xdd\x80\x49\x28\x5b\x8d\x60\x3e\x64\x87\xd6\x88\xc0\x98\x3f\xa2\x87\x02\xb0\x50\x02\x33\x4e\x74\x4f\x86\x84\x5a\x2f\xde\x3d\x89\x21\x9c\x97\xac\xd8\x01\x14\x93\x96\x06\x73\x21\xf1\xee\x58\x9c\xa5\x73\x8b\x07\xcd\xfc\xb8\x04\x7f\x62\x9a\x08\x67\x68\xc0\x26\xe7\x14\x94\xe0\x8a\x28\x3c\x6b\xdf\x9d\x51\x50\xe2\x8d\x3e\xf2\xbd\x03\x5c\xfe\x7f\xf7\xf7\x0e\x1a\xec\xf6\xad\x88\x5e\x05\x74\xb3\x1c\xe7\x42\xcd\xb9\x3c\xa7\x5e\xa4\xfb\x63\x07\xa7\x5a\x1f\x1f\xf3\xb5\x03\x5b\xc5\x70\x68\xd8\x68\x87\x87\x5e\xf2\x7b\xb7\x3a\xad\x24\xbc\xcf\x1e\x04\xc1\x09\x06\x4d\xe8\xd5\x2a\xb4\x8e\x82\x5f\xa0\xf0\x8c\x1f\xd3\x19\xfb\x95\x09\xbb\x85\x09\xad\x32\x50\x27\x50\xec\xc9\xe8\x2c\x43\xe8\x14\xb9\x14\x3f\xf1\x10\xd9\x29\x13\x38\xff\x5b\x06\xb8\xb0\xbe\x8c\x6a\x9f\xd8\x77\x89\xd4\x1e\xaa\x74\xca\xbe\xd3\xbe\x65\x60\xf5\xc2\x9f\xec\xab\x05\x3d\x28\x9f\xa0\xaa\xa0\x5f\x57\xa1\x1f\x78\x82\x1a\xe2\x52\xda\xf9\xf6\xd4\xd1\x70\x08\xfb\x1a\x69\x38\x84\xad\x07\xdd\x0e\x4e\x75\x09\xb9\x1d\xfc\xd9\x67\xfb\x6d\x29\xa6\xf1\xf4\x17\x13\xdf\x0b\xba\x18\xf5\x3e\xea\x99\xc6\xa6\x36\xf7\x81\xd8\xfa\x55\x8b\x48\x47\x3a\xb0\xf3\x5b\x0c\xa7\x2a\xe5\xae\x3c\xdd\x61\xad\xdc\xfd\xe9\x22\x9f\x87\x49\x37\x77\xab\x66\x4a\x19\x1d\xd0\xcc\xed\x1b\x27\xee\x7f\x6c\x87\x2b\x3f\x0e\xa0\x5d\x87\x1e\x65\x8d\x5b\x6d\x25\xfd\x0b\x35\xdb\xd5\xd5\x17\x1a\xd7\x9f\x46\x61\x9f\x6a\x63\x1d\x4b\x96\x59\x92\xf7\x2a\x68\x37\x91\x3e\x11\x0e\x5c\xe2\x6d\xc3\x7f\x0d\x00\x0a\xec\x1f\x1f\x1c\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27432, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xa3, 0x2c, 0x4b, 0x32, 0xad, 0xea, 0x4e, 0x9b, 0x36, 0xab, 0x83, 0x6f, 0xfc, 0xac, 0xcf, 0xc5, 0x40, 0x8b, 0xe5, 0xd7, 0x9e, 0x61, 0x3e, 0x8b, 0x24, 0x62, 0xb5, 0xda, 0x12, 0x9e, 0xb9, 0x79}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27164, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x35, 0x66, 0x56, 0x45, 0xba, 0x96, 0x4c, 0xe1, 0xa6, 0x60, 0x7b, 0x7, 0xbf, 0x3c, 0x64, 0x26, 0x89, 0x56, 0xf6, 0x89, 0xc3, 0x55, 0x21, 0xe, 0x7a, 0xe2, 0xf9, 0xfe, 0xad, 0xd4, 0x4e, 0xce}}
 	return a, nil
 }
 
-- 
2.43.0

