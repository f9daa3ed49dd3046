From 765eb4a6c6c6d5756f4383907e9e1b1ea203b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 01/25] fix: compile the entry and import each goroutine was
 started for

The loop variables were captured by the goroutines, so with more than one
entry or import most goroutines worked on the last one.
---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index f559852..7459b55 100644
--- a/api.go
+++ b/api.go
@@ -181,6 +181,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
+		imp := imp
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
@@ -225,6 +226,7 @@ func Compile(opts Options) *Result {
 	var wg errgroup.Group
 
 	for _, e := range opts.Entry {
+		e := e
 		wg.Go(func() error {
 			c.parseFile(e, true)
 			return nil
-- 
2.43.0


From e4d6d72f3456b4ca91ec631a1012a0b6191ed2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 02/25] fix: report the transformer's diagnostics under the
 compilation's lock

---
 api.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 7459b55..cd3908e 100644
--- a/api.go
+++ b/api.go
@@ -139,6 +139,17 @@ func (c *compilation) addError(err error) {
 	c.reporter.AddError(err)
 }
 
+// lockedReporter is a Reporter that goes through the compilation's lock, so
+// that the configured reporter is only called by one goroutine at a time.
+type lockedReporter struct {
+	c *compilation
+}
+
+// AddError implements Reporter.
+func (r lockedReporter) AddError(err error) {
+	r.c.addError(err)
+}
+
 // parseFile assigns the file a source index and parses the source. It also
 // looks at imported files and adds them to the compilation. hasOutput should
 // be called if the file should be included in compilation output.
@@ -205,7 +216,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
 		OriginalSource: source,
-		Reporter:       c.reporter,
+		Reporter:       lockedReporter{c},
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-- 
2.43.0


From d0276dbf40d6da59534fdc210879720ca8cfc7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 03/25] fix: load every file once and transform each output on
 its own

Concurrent requests for the same file could read it several times, give two
files the same index, write the tables without a lock, transform one AST from
several goroutines and, with import cycles, recurse forever. Imported files
were also transformed before the importing file could see their definitions,
and shared by all importers.
---
 api.go | 158 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 97 insertions(+), 61 deletions(-)

diff --git a/api.go b/api.go
index cd3908e..3bfbe31 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,7 @@ func newCompilation(opts Options) *compilation {
 		sourcesByIndex: make(map[int]*sources.Source),
 		outputsByIndex: make(map[int]struct{}),
 		astsByIndex:    make(map[int]*ast.Stylesheet),
+		importsByIndex: make(map[int][]int),
 		result:         newResult(),
 		reporter:       logging.DefaultReporter,
 		transforms:     opts.Transforms,
@@ -68,11 +69,16 @@ type compilation struct {
 	sourcesByIndexMu sync.RWMutex
 	sourcesByIndex   map[int]*sources.Source
 
-	astsByIndexMu sync.RWMutex
-	astsByIndex   map[int]*ast.Stylesheet
+	// astsByIndex and importsByIndex have an entry for every source that could
+	// be parsed. importsByIndex holds the source index for each of the stylesheet's
+	// imports, or noSource if it could not be resolved.
+	astsByIndexMu  sync.RWMutex
+	astsByIndex    map[int]*ast.Stylesheet
+	importsByIndex map[int][]int
 
 	// outputsByIndex is the set of sources to write outputs for.
-	outputsByIndex map[int]struct{}
+	outputsByIndexMu sync.Mutex
+	outputsByIndex   map[int]struct{}
 
 	result *Result
 
@@ -83,24 +89,34 @@ type compilation struct {
 	resolver Resolver
 }
 
-// addSource will read in a path and assign it a source index. If
-// it's already been loaded, the cached source is returned.
-func (c *compilation) addSource(path string) (int, error) {
-	abs, err := filepath.Abs(path)
+// noSource is the source index of a file that could not be found.
+const noSource = -1
+
+// addSource assigns a source index to a path. isNew is true for exactly one
+// caller per file, which is the one that has to load it.
+func (c *compilation) addSource(path string) (idx int, abs string, isNew bool, err error) {
+	abs, err = filepath.Abs(path)
 	if err != nil {
-		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
+		return noSource, "", false, oops.Wrapf(err, "failed to make path absolute: %s", path)
 	}
 
-	c.sourcesMu.RLock()
-	if _, ok := c.sources[abs]; ok {
-		defer c.sourcesMu.RUnlock()
-		return c.sources[abs], nil
+	c.sourcesMu.Lock()
+	defer c.sourcesMu.Unlock()
+	if i, ok := c.sources[abs]; ok {
+		return i, abs, false, nil
 	}
-	c.sourcesMu.RUnlock()
 
+	i := c.nextIndex
+	c.sources[abs] = i
+	c.nextIndex++
+	return i, abs, true, nil
+}
+
+// readSource reads in the file for a source index.
+func (c *compilation) readSource(idx int, abs string) (*sources.Source, error) {
 	in, err := ioutil.ReadFile(abs)
 	if err != nil {
-		return 0, oops.Wrapf(err, "failed to read file: %s", path)
+		return nil, oops.Wrapf(err, "failed to read file: %s", abs)
 	}
 
 	source := &sources.Source{
@@ -108,17 +124,11 @@ func (c *compilation) addSource(path string) (int, error) {
 		Path:    abs,
 	}
 
-	c.sourcesMu.Lock()
-	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
-
 	c.sourcesByIndexMu.Lock()
-	c.sourcesByIndex[i] = source
+	c.sourcesByIndex[idx] = source
 	c.sourcesByIndexMu.Unlock()
 
-	c.nextIndex++
-	return i, nil
+	return source, nil
 }
 
 func newResult() *Result {
@@ -152,48 +162,49 @@ func (r lockedReporter) AddError(err error) {
 
 // parseFile assigns the file a source index and parses the source. It also
 // looks at imported files and adds them to the compilation. hasOutput should
-// be called if the file should be included in compilation output.
+// be set if the file should be included in compilation output.
 //
-// parseFile also runs the last transformation pass on the output. Note that we
-// don't make this function print the output as well so that we can make the current
-// file available to any callers as a dependency.
-func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
+// Every file is loaded once, by the first call for it. Other calls return its
+// index right away, so its AST may only be used once all files are loaded.
+func (c *compilation) parseFile(file string, hasOutput bool) int {
 	// Assign the file a source index.
-	idx, err := c.addSource(file)
+	idx, abs, isNew, err := c.addSource(file)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return noSource
 	}
 
 	if hasOutput {
+		c.outputsByIndexMu.Lock()
 		c.outputsByIndex[idx] = struct{}{}
+		c.outputsByIndexMu.Unlock()
 	}
 
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
-		return ss
+	if !isNew {
+		return idx
+	}
+
+	source, err := c.readSource(idx, abs)
+	if err != nil {
+		c.addError(err)
+		return idx
 	}
-	c.astsByIndexMu.RUnlock()
 
-	c.sourcesByIndexMu.RLock()
-	source := c.sourcesByIndex[idx]
-	c.sourcesByIndexMu.RUnlock()
 	ss, err := parser.Parse(source)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return idx
 	}
 
 	// Immediately look at the imports from the file and feed those dependencies
-	// into parseFile as well. If we're set to inline imports, then we'll use
-	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
+	// into parseFile as well. If we're set to inline imports, then transformFile
+	// will replace them once everything is loaded.
+	imports := make([]int, len(ss.Imports))
 	var wg errgroup.Group
-	for _, imp := range ss.Imports {
-		imp := imp
+	for i, imp := range ss.Imports {
+		i, imp := i, imp
 		wg.Go(func() error {
+			imports[i] = noSource
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
 				c.addError(err)
@@ -201,33 +212,59 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 			}
 
 			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
-
-			mu.Lock()
-			defer mu.Unlock()
-			if imported != nil {
-				replacements[imp.AtRule] = imported
-			}
+			imports[i] = c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
 			return nil
 		})
 	}
 	wg.Wait()
 
+	c.astsByIndexMu.Lock()
+	c.astsByIndex[idx] = ss
+	c.importsByIndex[idx] = imports
+	c.astsByIndexMu.Unlock()
+	return idx
+}
+
+// transformFile runs the last transformation pass for an output. It must be called
+// at most once per source, after all files are loaded.
+func (c *compilation) transformFile(idx int) *ast.Stylesheet {
+	ss := c.astsByIndex[idx]
 	opts := transformer.Options{
 		Options:        c.transforms,
-		OriginalSource: source,
+		OriginalSource: c.sourcesByIndex[idx],
 		Reporter:       lockedReporter{c},
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
+		opts.ImportReplacements = make(map[*ast.AtRule]*ast.Stylesheet)
+		c.addReplacements(idx, ss, map[int]struct{}{idx: {}}, opts.ImportReplacements)
 	}
 
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	return transformer.Transform(ss, opts)
+}
+
+// addReplacements collects the stylesheets to inline for the imports of ss. The
+// transformer modifies what it is given, so each of them is a copy for this one place.
+// Imports of any of the ancestors, which would never end, are left as they are.
+func (c *compilation) addReplacements(idx int, ss *ast.Stylesheet, ancestors map[int]struct{}, replacements map[*ast.AtRule]*ast.Stylesheet) {
+	for i, imp := range ss.Imports {
+		imported := c.importsByIndex[idx][i]
+		if _, ok := ancestors[imported]; ok || c.astsByIndex[imported] == nil {
+			continue
+		}
+
+		source := c.sourcesByIndex[imported]
+		replacement, err := parser.Parse(&sources.Source{Path: source.Path, Content: source.Content})
+		if err != nil {
+			c.addError(err)
+			continue
+		}
+
+		replacements[imp.AtRule] = replacement
+		ancestors[imported] = struct{}{}
+		c.addReplacements(imported, replacement, ancestors, replacements)
+		delete(ancestors, imported)
+	}
 }
 
 // Compile runs a compilation with the specified Options.
@@ -251,14 +288,13 @@ func Compile(opts Options) *Result {
 		wg.Go(func() error {
 			// XXX: this is the wrong file name
 			source := c.sourcesByIndex[idx]
-			ast := c.astsByIndex[idx]
-			if source == nil || ast == nil {
+			if source == nil || c.astsByIndex[idx] == nil {
 				// Skip attempting to print if there was a problem reading/parsing this file
 				// in the first place.
 				return nil
 			}
 
-			out, err := printer.Print(ast, printer.Options{
+			out, err := printer.Print(c.transformFile(idx), printer.Options{
 				OriginalSource: source,
 			})
 			if err != nil {
-- 
2.43.0


From 4eac6f6f949051e94464ef26a101ed38f1b67d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 04/25] fix: output an @import that is not inlined once, not
 twice

---
 internal/transformer/transformer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..fa8d7cc 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -181,6 +181,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			case "import":
 				if t.ImportReplacements == nil {
 					rv = append(rv, node)
+					break
 				}
 
 				imported, ok := t.ImportReplacements[node]
-- 
2.43.0


From a5b9d6ea476d443fe52aeafe679c2e6ec5763c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 05/25] fix: locate diagnostics about inlined rules in the file
 they come from

---
 api.go                              | 17 +++++++++++------
 internal/transformer/transformer.go |  9 +++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/api.go b/api.go
index 3bfbe31..a14ee51 100644
--- a/api.go
+++ b/api.go
@@ -237,7 +237,8 @@ func (c *compilation) transformFile(idx int) *ast.Stylesheet {
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
 		opts.ImportReplacements = make(map[*ast.AtRule]*ast.Stylesheet)
-		c.addReplacements(idx, ss, map[int]struct{}{idx: {}}, opts.ImportReplacements)
+		opts.ImportSources = make(map[*ast.Stylesheet]*sources.Source)
+		c.addReplacements(idx, ss, map[int]struct{}{idx: {}}, &opts)
 	}
 
 	return transformer.Transform(ss, opts)
@@ -246,23 +247,27 @@ func (c *compilation) transformFile(idx int) *ast.Stylesheet {
 // addReplacements collects the stylesheets to inline for the imports of ss. The
 // transformer modifies what it is given, so each of them is a copy for this one place.
 // Imports of any of the ancestors, which would never end, are left as they are.
-func (c *compilation) addReplacements(idx int, ss *ast.Stylesheet, ancestors map[int]struct{}, replacements map[*ast.AtRule]*ast.Stylesheet) {
+func (c *compilation) addReplacements(idx int, ss *ast.Stylesheet, ancestors map[int]struct{}, opts *transformer.Options) {
 	for i, imp := range ss.Imports {
 		imported := c.importsByIndex[idx][i]
 		if _, ok := ancestors[imported]; ok || c.astsByIndex[imported] == nil {
 			continue
 		}
 
-		source := c.sourcesByIndex[imported]
-		replacement, err := parser.Parse(&sources.Source{Path: source.Path, Content: source.Content})
+		source := &sources.Source{
+			Path:    c.sourcesByIndex[imported].Path,
+			Content: c.sourcesByIndex[imported].Content,
+		}
+		replacement, err := parser.Parse(source)
 		if err != nil {
 			c.addError(err)
 			continue
 		}
 
-		replacements[imp.AtRule] = replacement
+		opts.ImportReplacements[imp.AtRule] = replacement
+		opts.ImportSources[replacement] = source
 		ancestors[imported] = struct{}{}
-		c.addReplacements(imported, replacement, ancestors, replacements)
+		c.addReplacements(imported, replacement, ancestors, opts)
 		delete(ancestors, imported)
 	}
 }
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index fa8d7cc..bd0b68e 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -27,6 +27,10 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the source of each of the stylesheets in ImportReplacements. It is used
+	// to report error locations in them.
+	ImportSources map[*ast.Stylesheet]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -194,7 +198,12 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
+				importer := t.OriginalSource
+				if source, ok := t.ImportSources[imported]; ok {
+					t.OriginalSource = source
+				}
 				rv = append(rv, t.transformNodes(imported.Nodes)...)
+				t.OriginalSource = importer
 
 			case "custom-media":
 				func() {
-- 
2.43.0


From 3d07ac2a58f19a8cbc5fa9078b3250626555c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 06/25] fix: locate errors about calc() at the expression as it
 was written

---
 internal/transformer/transformer.go | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index bd0b68e..8d83f42 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -482,7 +482,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
+				newValue := t.evaluateMathExpression(arg.Left, l[0], r[0], arg.Operator)
 				if newValue == nil {
 					return
 				}
@@ -530,15 +530,18 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 // evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
 // instead. For sum to succeed, both l and r must be of the same type.
 // See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
-func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
+//
+// Errors are reported at loc, the left-hand side as it was written: l might be the result of
+// another evaluation or of a substitution, and so not be in the source.
+func (t *transformer) evaluateMathExpression(loc ast.Node, l, r ast.Value, op string) ast.Value {
 	if expr, ok := l.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
+		if evaluated := t.evaluateMathExpression(expr.Left, expr.Left, expr.Right, expr.Operator); evaluated != nil {
 			l = evaluated
 		}
 	}
 
 	if expr, ok := r.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
+		if evaluated := t.evaluateMathExpression(expr.Left, expr.Left, expr.Right, expr.Operator); evaluated != nil {
 			r = evaluated
 		}
 	}
@@ -555,12 +558,12 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			if left.Unit != right.Unit {
 				if left.Unit == "" && right.Unit != "" {
 					// Invalid, because we cannot mix number types and lengths, e.g. (2 + 5rem).
-					t.addError(left, "cannot add number type and %s type together", right.Unit)
+					t.addError(loc, "cannot add number type and %s type together", right.Unit)
 				}
 
 				if left.Unit != "" && right.Unit == "" {
 					// Invalid, because we cannot mix number types and lengths, e.g. (5rem + 2).
-					t.addError(left, "cannot add number type and %s type together", left.Unit)
+					t.addError(loc, "cannot add number type and %s type together", left.Unit)
 				}
 
 				// Valid css, but we cannot reduce (e.g. 2px + 3rem).
@@ -569,7 +572,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 			newValue, err := t.doMath(left.Value, right.Value, op)
 			if err != nil {
-				t.addError(l, err.Error())
+				t.addError(loc, err.Error())
 				return nil
 			}
 
@@ -588,7 +591,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
+			t.addError(loc, "cannot perform %s on this type", op)
 			return nil
 		}
 
@@ -600,7 +603,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 		if leftAsDimension.Unit != "" && rightAsDimension.Unit != "" {
-			t.addError(l, "one side of multiplication must be a number (non-percentage/dimension)")
+			t.addError(loc, "one side of multiplication must be a number (non-percentage/dimension)")
 			return nil
 		}
 
@@ -613,7 +616,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 		newValue, err := t.doMath(maybeWithUnit.Value, number.Value, op)
 		if err != nil {
-			t.addError(l, err.Error())
+			t.addError(loc, err.Error())
 			return nil
 		}
 
@@ -625,7 +628,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 	case "/":
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
 		if !rightIsDimension || rightAsDimension.Unit != "" {
-			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
+			t.addError(loc, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
 
@@ -633,7 +636,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		case *ast.Dimension:
 			newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
 			if err != nil {
-				t.addError(l, err.Error())
+				t.addError(loc, err.Error())
 				return nil
 			}
 
@@ -645,12 +648,12 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			// case *ast.MathExpression
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
+			t.addError(loc, "cannot perform %s on this type", op)
 			return nil
 		}
 
 	default:
-		t.addError(l, "unknown op: %s", op)
+		t.addError(loc, "unknown op: %s", op)
 		return nil
 	}
 }
-- 
2.43.0


From 3f45c8bf113a2f12765b88685b3dfd1523e505cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 07/25] fix: do not report valid calc() operands that cannot be
 reduced as errors

---
 internal/transformer/transformer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 8d83f42..7b1450a 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -591,7 +591,7 @@ func (t *transformer) evaluateMathExpression(loc ast.Node, l, r ast.Value, op st
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
 		default:
-			t.addError(loc, "cannot perform %s on this type", op)
+			// Possibly valid css, but we cannot reduce (e.g. (1px + 2rem) + 3px or var(--x) + 3px).
 			return nil
 		}
 
@@ -627,7 +627,12 @@ func (t *transformer) evaluateMathExpression(loc ast.Node, l, r ast.Value, op st
 
 	case "/":
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
-		if !rightIsDimension || rightAsDimension.Unit != "" {
+		if !rightIsDimension {
+			// Possibly valid css, but we cannot reduce (e.g. 3px / var(--x)).
+			return nil
+		}
+
+		if rightAsDimension.Unit != "" {
 			t.addError(loc, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
@@ -648,7 +653,7 @@ func (t *transformer) evaluateMathExpression(loc ast.Node, l, r ast.Value, op st
 			// case *ast.MathExpression
 
 		default:
-			t.addError(loc, "cannot perform %s on this type", op)
+			// Possibly valid css, but we cannot reduce (e.g. (1px + 2rem) + 3px or var(--x) + 3px).
 			return nil
 		}
 
-- 
2.43.0


From be2a38067966e5958ce71fda91887d4fd5e5055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 08/25] fix: record every line once and count a carriage return
 as one

---
 internal/lexer/lexer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..857d500 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,6 +3,7 @@
 package lexer
 
 import (
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -71,7 +72,7 @@ func NewLexer(source *sources.Source) *Lexer {
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
 	if l.pos == 0 {
-		l.source.Lines = append(l.source.Lines, l.pos)
+		l.addLine(l.pos)
 	}
 
 	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
@@ -84,19 +85,14 @@ func (l *Lexer) step() {
 
 	// "Convert" to newline. https://www.w3.org/TR/css-syntax-3/#newline
 	if cp == '\r' {
-		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
-		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+		cp = '\n'
+		if strings.HasPrefix(l.source.Content[l.pos+size:], "\n") {
+			size++
 		}
-
-		l.ch = next
-		l.lastPos = l.pos
-		l.pos += size + nextSize
-		return
 	}
 
 	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
+		l.addLine(l.pos + size)
 	}
 
 	l.ch = cp
@@ -104,6 +100,15 @@ func (l *Lexer) step() {
 	l.pos += size
 }
 
+// addLine records the offset of the beginning of a line. The parser may go back and
+// lex a part of the source again, so the line might be recorded already.
+func (l *Lexer) addLine(pos int) {
+	if n := len(l.source.Lines); n > 0 && l.source.Lines[n-1] >= pos {
+		return
+	}
+	l.source.Lines = append(l.source.Lines, pos)
+}
+
 // peek returns the next ith unconsumed rune but does not consume it.
 // i is 0-indexed (0 is one ahead, 1 is two ahead, etc.)
 func (l *Lexer) peek(i int) rune {
-- 
2.43.0


From b279da220961f0d8a6de2800c6c6c2865d41a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 09/25] fix: step over <!-- and -->, which never ended

---
 internal/lexer/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 857d500..2f22b79 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -180,6 +180,9 @@ func (l *Lexer) Next() {
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
 				l.Current = CDC
+				for range "-->" {
+					l.step()
+				}
 				return
 			}
 
@@ -193,6 +196,9 @@ func (l *Lexer) Next() {
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
 				l.Current = CDO
+				for range "<!--" {
+					l.step()
+				}
 				return
 			}
 
-- 
2.43.0


From a809c463b43c869ae7a7b7ca13038292e0a2085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 10/25] fix: do not end a string at an escaped quote

---
 internal/lexer/lexer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 2f22b79..30811be 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -331,9 +331,8 @@ func (l *Lexer) Next() {
 					case -1:
 						l.Errorf("unexpected EOF")
 					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+						// The escaped code point does not end the string.
+						l.step()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
-- 
2.43.0


From fd89af69634207260e02b687409f2881c9b660b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 11/25] fix: leave trailing whitespace out of an unquoted url

---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 30811be..647b460 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -476,7 +476,7 @@ func (l *Lexer) nextIdentLikeToken() {
 		for {
 			switch l.ch {
 			case ')':
-				l.CurrentString = l.source.Content[urlStart:l.lastPos]
+				l.CurrentString = strings.TrimRight(l.source.Content[urlStart:l.lastPos], " \t\r\n")
 				l.step()
 				return
 			case -1:
-- 
2.43.0


From aa46488b031bcc312d4c507f74328539ba9a3e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 12/25] fix: report an error in the first token of a file
 instead of crashing

---
 internal/parser/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..1c9b9fd 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	var p *parser
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -17,15 +17,17 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 				return
 			}
 
-			if errI, ok := rErr.(error); ok {
+			if errI, ok := rErr.(error); ok && p != nil {
 				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
 			}
 
 			// Re-panic unknown issues.
-			panic(err)
+			panic(rErr)
 		}
 	}()
 
+	// The lexer reads the first token right away, so this can already fail.
+	p = newParser(source)
 	p.parse()
 	return p.ss, nil
 }
-- 
2.43.0


From fb7d302e2a8aa2f3defbde9ec683e27c5cd6475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 13/25] fix: end a declaration that cannot be parsed at the end
 of its block

---
 internal/parser/parser.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 1c9b9fd..11410c2 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -141,20 +141,38 @@ func (p *parser) parseDeclarationOrFallback() (rv ast.Declarationish) {
 	return p.parseDeclaration()
 }
 
+// parseRaw skips over a declaration that could not be parsed. It ends after a semicolon
+// or before the end of the enclosing block.
 func (p *parser) parseRaw() *ast.Raw {
 	raw := &ast.Raw{
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
-		p.lexer.Next()
-	}
-	raw.End = p.lexer.TokenEnd()
-	p.lexer.Next()
+	var depth int
+	for {
+		switch p.lexer.Current {
+		case lexer.EOF:
+			p.lexer.Errorf("unexpected EOF")
 
-	raw.Value = p.source.Content[raw.Start:raw.End]
+		case lexer.LCurly:
+			depth++
 
-	return raw
+		case lexer.RCurly:
+			if depth == 0 {
+				raw.Value = p.source.Content[raw.Start:raw.End]
+				return raw
+			}
+			depth--
+		}
+
+		isEnd := p.lexer.Current == lexer.Semicolon && depth == 0
+		raw.End = p.lexer.TokenEnd()
+		p.lexer.Next()
+		if isEnd {
+			raw.Value = p.source.Content[raw.Start:raw.End]
+			return raw
+		}
+	}
 }
 
 func (p *parser) parseDeclaration() *ast.Declaration {
-- 
2.43.0


From 33c01aec368b2722975c8634ed4d48f1dfa5afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 14/25] fix: report a math expression without a value instead
 of hanging or crashing

---
 internal/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 11410c2..a64befc 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -341,7 +341,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		value := p.parseValue()
+		if value == nil {
+			p.lexer.Errorf("expected value in math expression")
+		}
+		return value
 	}
 
 	loc := p.lexer.TokenSpan()
-- 
2.43.0


From 002c8ac515ab5efde725ff397a62a615cac7d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 15/25] fix: do not crash on a rule, @media or @custom-media
 without a prelude

---
 internal/parser/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index a64befc..3360c78 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -94,6 +94,9 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.LCurly:
+			if r.Prelude == nil {
+				p.lexer.Errorf("expected selector")
+			}
 			r.Block = p.parseDeclarationBlock()
 			r.End = r.Block.Location().End
 			return r
@@ -619,7 +622,11 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	queries := p.parseMediaQueryList()
+	if queries == nil {
+		queries = &ast.MediaQueryList{Span: p.lexer.TokenSpan()}
+	}
+	r.Preludes = []ast.AtPrelude{queries}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
@@ -848,7 +855,7 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
-- 
2.43.0


From 026b498e2d43bef18459a9cae16ec671d3f428a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 16/25] fix: do not take a dot in front of a number for one,
 which never ended

---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 647b460..5aafbab 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -260,7 +260,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
-- 
2.43.0


From 0924854a922e91d98fe2ae71948174ee774e528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 17/25] fix: return an error, not an empty path, when the entry
 of a directory is a directory

---
 resolver/node_resolver.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..86df0e3 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -104,11 +104,13 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	if err != nil {
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
-		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
+		if info, err := os.Stat(indexPath); err != nil {
 			if os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
 			return "", oops.Wrapf(err, "failure during resolution")
+		} else if info.IsDir() {
+			return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", indexPath)
 		}
 
 		return indexPath, nil
@@ -125,11 +127,13 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	}
 
 	stylePath := filepath.Join(path, pkgContent.Style)
-	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {
+	if info, err := os.Stat(stylePath); err != nil {
 		if os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
 		return "", oops.Wrapf(err, "failure during resolution")
+	} else if info.IsDir() {
+		return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it is a directory: %s (to %s)", pkgContent.Style, stylePath)
 	}
 
 	return stylePath, nil
-- 
2.43.0


From ba6f726cdd58564834f3a0badaad8d491ad42381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 18/25] fix: look in the node_modules of the root, and stop
 there or at a relative directory

---
 resolver/node_resolver.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 86df0e3..39e244f 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -141,15 +141,23 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
-	currentDir := fromDir
-	for currentDir != "/" {
+	currentDir, err := filepath.Abs(fromDir)
+	if err != nil {
+		return "", oops.Wrapf(err, "failed to make path absolute: %s", fromDir)
+	}
+
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		parent := filepath.Dir(currentDir)
+		if parent == currentDir {
+			break
+		}
+		currentDir = parent
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From 927a2b2976ce67df01c41933ffdb201c931b8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 19/25] fix: resolve to a file with the extension before a
 directory of the same name

---
 resolver/node_resolver.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 39e244f..1e9d2b4 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -62,30 +62,27 @@ type packageJSON struct {
 func (r *NodeResolver) resolve(absPath string) (string, error) {
 	// Attempt to resolve first as a file.
 	info, err := os.Stat(absPath)
-	if err != nil {
-		if os.IsNotExist(err) {
-			// If it doesn't exist, try to resolve with an extension.
-			withExtension := absPath + ".css"
-			info, err := os.Stat(withExtension)
-			if err != nil {
-				if os.IsNotExist(err) {
-					return "", oops.Wrapf(ErrNotFound, "could not resolve as file: %s or %s", absPath, withExtension)
-				}
-				return "", oops.Wrapf(err, "failure during resolution")
-			}
+	if err == nil && !info.IsDir() {
+		return absPath, nil
+	}
 
-			if info.IsDir() {
-				return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", withExtension)
-			}
+	if err != nil && !os.IsNotExist(err) {
+		return "", oops.Wrapf(err, "failure during resolution")
+	}
 
-			return withExtension, nil
-		}
+	// If there is no such file, try to resolve with an extension.
+	withExtension := absPath + ".css"
+	extInfo, extErr := os.Stat(withExtension)
+	if extErr == nil && !extInfo.IsDir() {
+		return withExtension, nil
+	}
 
-		return "", oops.Wrapf(err, "failure during resolution")
+	if extErr != nil && !os.IsNotExist(extErr) {
+		return "", oops.Wrapf(extErr, "failure during resolution")
 	}
 
-	if !info.IsDir() {
-		return absPath, nil
+	if err != nil {
+		return "", oops.Wrapf(ErrNotFound, "could not resolve as file: %s or %s", absPath, withExtension)
 	}
 
 	// Otherwise, try to resolve as a directory.
-- 
2.43.0


From 493cdbd1c763d11bea8909bbeadf74b1c095a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 20/25] fix: give esbuild each diagnostic once, at its line and
 column

---
 esbuildplugin/plugin.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..a4f4138 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -25,22 +26,30 @@ type locationError interface {
 func (r *csscReporter) toEsbuild() []api.Message {
 	var errs []api.Message
 	for _, err := range *r {
-
-		if lErr, ok := err.(locationError); ok {
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			line, col := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
 
+			// The underlined part ends with the line at the latest.
+			end := span.End
+			if end > lineSpan.End {
+				end = lineSpan.End
+			}
+
 			errs = append(errs, api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
-					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
-					Length:   lineSpan.End - lineSpan.Start,
+					File: source.Path,
+					// esbuild's lines are 1-based, and its columns 0-based.
+					Line:     int(line),
+					Column:   int(col) - 1,
+					Length:   end - span.Start,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
 			})
+			continue
 		}
 
 		errs = append(errs, api.Message{
@@ -80,10 +89,10 @@ func Plugin(opts ...Option) api.Plugin {
 				func(args api.OnLoadArgs) (res api.OnLoadResult, err error) {
 					res.Loader = api.LoaderCSS
 
-					var errors csscReporter
+					var reporter csscReporter
 					options := cssc.Options{
 						Entry:    []string{args.Path},
-						Reporter: &errors,
+						Reporter: &reporter,
 					}
 					for _, opt := range opts {
 						options = opt(options)
@@ -92,8 +101,8 @@ func Plugin(opts ...Option) api.Plugin {
 					pprof.SetGoroutineLabels(pprof.WithLabels(context.TODO(), pprof.Labels("cssc-path", args.Path)))
 					result := cssc.Compile(options)
 
-					if len(errors) > 0 {
-						res.Errors = errors.toEsbuild()
+					if len(reporter) > 0 {
+						res.Errors = reporter.toEsbuild()
 						return
 					}
 
-- 
2.43.0


From 20343e69e2447d0daf9a74d8e0d1e7985b53d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 21/25] fix: escape the path in the source map

---
 internal/printer/printer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..2a5aa12 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	file, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(file)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 0cbd4f268b6cb8f129aef4cd256e55636d779ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 22/25] fix: limit how deeply values and selectors can nest

Deeply nested functions, brackets, selectors or arithmetic exhausted the stack,
which ends the whole process without a diagnostic.
---
 internal/parser/parser.go    | 33 ++++++++++++++++++++++++++++++++-
 internal/parser/selectors.go |  2 ++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 3360c78..45a2cfb 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -40,10 +40,26 @@ func newParser(source *sources.Source) *parser {
 	}
 }
 
+// maxDepth limits how deeply values and selectors can nest. The parser and everything that
+// walks the tree after it are recursive, so without it, an input could exhaust the stack.
+const maxDepth = 10000
+
 type parser struct {
 	source *sources.Source
 	lexer  *lexer.Lexer
 	ss     *ast.Stylesheet
+
+	// depth is the current nesting depth of values and selectors.
+	depth int
+}
+
+// enter records that the parser goes one level deeper. The caller has to restore
+// p.depth when it returns.
+func (p *parser) enter() {
+	p.depth++
+	if p.depth > maxDepth {
+		p.lexer.Errorf("nested too deeply")
+	}
 }
 
 func (p *parser) parse() {
@@ -132,11 +148,12 @@ func (p *parser) parseDeclarationBlock() *ast.DeclarationBlock {
 }
 
 func (p *parser) parseDeclarationOrFallback() (rv ast.Declarationish) {
-	lexerState := *p.lexer
+	lexerState, depth := *p.lexer, p.depth
 	defer func() {
 		if err := recover(); err != nil {
 			// Restore the lexer and try again to read the value.
 			p.lexer = &lexerState
+			p.depth = depth
 			rv = p.parseRaw()
 		}
 	}()
@@ -297,9 +314,12 @@ func (p *parser) parseMathExpression() ast.Value {
 }
 
 func (p *parser) parseMathSum() ast.Value {
+	depth := p.depth
 	left := p.parseMathProduct()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
+		// Each operator nests everything to the left of it.
+		p.enter()
 		op := p.lexer.CurrentString
 		p.lexer.Expect(lexer.Delim)
 
@@ -316,13 +336,17 @@ func (p *parser) parseMathSum() ast.Value {
 		}
 	}
 
+	p.depth = depth
 	return left
 }
 
 func (p *parser) parseMathProduct() ast.Value {
+	depth := p.depth
 	left := p.parseMathParenthesizedExpression()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "*" || p.lexer.CurrentString == "/") {
+		// Each operator nests everything to the left of it.
+		p.enter()
 		op := p.lexer.CurrentString
 		p.lexer.Expect(lexer.Delim)
 
@@ -339,6 +363,7 @@ func (p *parser) parseMathProduct() ast.Value {
 		}
 	}
 
+	p.depth = depth
 	return left
 }
 
@@ -352,6 +377,7 @@ func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	}
 
 	loc := p.lexer.TokenSpan()
+	p.enter()
 	p.lexer.Expect(lexer.LParen)
 	expr := &ast.MathParenthesizedExpression{
 		Span:  loc,
@@ -359,6 +385,7 @@ func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	}
 	expr.End = p.lexer.TokenSpan().End
 	p.lexer.Expect(lexer.RParen)
+	p.depth--
 	return expr
 }
 
@@ -380,6 +407,7 @@ func (p *parser) parseValue() ast.Value {
 		b := &ast.Brackets{
 			Span: p.lexer.TokenSpan(),
 		}
+		p.enter()
 		p.lexer.Next()
 
 		for {
@@ -387,6 +415,7 @@ func (p *parser) parseValue() ast.Value {
 			case lexer.RBracket:
 				b.End = p.lexer.TokenEnd()
 				p.lexer.Next()
+				p.depth--
 				return b
 
 			default:
@@ -448,6 +477,7 @@ func (p *parser) parseValue() ast.Value {
 			Span: p.lexer.TokenSpan(),
 			Name: p.lexer.CurrentString,
 		}
+		p.enter()
 		p.lexer.Next()
 
 	arguments:
@@ -477,6 +507,7 @@ func (p *parser) parseValue() ast.Value {
 			}
 		}
 
+		p.depth--
 		return fn
 	default:
 		return nil
diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..ed8c2f9 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -146,7 +146,9 @@ func (p *parser) parseSelector() *ast.Selector {
 						p.lexer.Next()
 					}
 				} else {
+					p.enter()
 					pc.Arguments = p.parseSelectorList()
+					p.depth--
 				}
 				pc.End = p.lexer.TokenEnd()
 				p.lexer.Expect(lexer.RParen)
-- 
2.43.0


From 642539ef3a8c7ccef648f14dfc4f70bdd873734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 23/25] fix: end a diagnostic's source line at a carriage
 return, too

---
 internal/sources/source.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/sources/source.go b/internal/sources/source.go
index 3160d7b..a5d9c7b 100644
--- a/internal/sources/source.go
+++ b/internal/sources/source.go
@@ -38,7 +38,8 @@ func (s *Source) FullLine(loc ast.Span) ast.Span {
 
 	lineEnd := len(s.Content)
 	for i, ch := range s.Content[loc.Start:] {
-		if ch == '\n' {
+		// The lexer takes all of these as the end of a line, too.
+		if ch == '\n' || ch == '\r' {
 			lineEnd = i + loc.Start
 			break
 		}
-- 
2.43.0


From 027949d98334f04274b9d1d50b57861a0d6561a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 24/25] fix: point errors about media features at the offending
 text

---
 internal/parser/parser.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 45a2cfb..a0ec86e 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -744,17 +744,18 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 	startLoc := p.lexer.TokenSpan()
 	p.lexer.Expect(lexer.LParen)
 
+	firstSpan := p.lexer.TokenSpan()
 	firstValue := p.parseValue()
 
 	switch p.lexer.Current {
 	case lexer.RParen:
-		startLoc.End = p.lexer.TokenEnd()
-		p.lexer.Next()
 		ident, ok := firstValue.(*ast.Identifier)
 		if !ok {
-			// XXX: this location is wrong. also, can't figure out type since we lost the lexer value.
-			p.lexer.Errorf("expected identifier in media feature with no value")
+			// XXX: can't figure out type since we lost the lexer value.
+			p.lexer.LocationErrorf(firstSpan, "expected identifier in media feature with no value")
 		}
+		startLoc.End = p.lexer.TokenEnd()
+		p.lexer.Next()
 
 		return &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -762,12 +763,12 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		}
 
 	case lexer.Colon:
-		p.lexer.Next()
 		ident, ok := firstValue.(*ast.Identifier)
 		if !ok {
-			// XXX: this location is wrong. also, can't figure out type since we lost the lexer value.
-			p.lexer.Errorf("expected identifier in non-range media feature")
+			// XXX: can't figure out type since we lost the lexer value.
+			p.lexer.LocationErrorf(firstSpan, "expected identifier in non-range media feature")
 		}
+		p.lexer.Next()
 
 		secondValue := p.parseValue()
 
@@ -796,7 +797,7 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 			// width < 600px, so the first value must have been an identifier.
 			maybeIdent, ok := firstValue.(*ast.Identifier)
 			if !ok {
-				p.lexer.Errorf("expected identifier")
+				p.lexer.LocationErrorf(firstSpan, "expected identifier")
 			}
 
 			r.LeftValue = nil
@@ -813,9 +814,10 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		r.Property = maybeIdent
 
 		if p.lexer.Current == lexer.Delim {
+			opSpan := p.lexer.TokenSpan()
 			op := p.parseMediaRangeOperator()
 			if op != r.Operator {
-				p.lexer.Errorf("operators in a range must be the same")
+				p.lexer.LocationErrorf(opSpan, "operators in a range must be the same")
 			}
 			r.RightValue = p.parseValue()
 		}
@@ -837,7 +839,7 @@ var (
 )
 
 func (p *parser) parseMediaRangeOperator() string {
-	operator := p.lexer.CurrentString
+	operator, operatorSpan := p.lexer.CurrentString, p.lexer.TokenSpan()
 	p.lexer.Next()
 
 	if p.lexer.Current == lexer.Delim {
@@ -853,7 +855,7 @@ func (p *parser) parseMediaRangeOperator() string {
 		case ">":
 			return mediaOperatorGTE
 		default:
-			p.lexer.Errorf("unknown operator: %s", operator)
+			p.lexer.LocationErrorf(operatorSpan, "unknown operator: %s", operator)
 		}
 	}
 
@@ -863,7 +865,7 @@ func (p *parser) parseMediaRangeOperator() string {
 	case ">":
 		return mediaOperatorGT
 	default:
-		p.lexer.Errorf("unknown operator: %s", operator)
+		p.lexer.LocationErrorf(operatorSpan, "unknown operator: %s", operator)
 		return ""
 	}
 }
@@ -877,11 +879,12 @@ func (p *parser) parseCustomMediaAtRule() {
 	}
 	p.lexer.Next()
 
+	nameSpan := p.lexer.TokenSpan()
 	maybeName := p.parseValue()
 	name, ok := maybeName.(*ast.Identifier)
 	if !ok {
 		// XXX: show received type
-		p.lexer.Errorf("expected identifier")
+		p.lexer.LocationErrorf(nameSpan, "expected identifier")
 	}
 
 	r.Preludes = append(r.Preludes, name)
-- 
2.43.0


From 4a2aeacd940c8fcbcc80469e9a8bec7319a0bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:09 +0000
Subject: [PATCH 25/25] fix: step over the character after a backslash, and at
 most one space after an escape

---
 internal/lexer/lexer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 5aafbab..9974d8c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -398,7 +398,7 @@ func startsEscape(p0, p1 rune) bool {
 		return false
 	}
 
-	if p1 == '\n' {
+	if p1 == '\n' || p1 == '\r' {
 		return false
 	}
 
@@ -579,11 +579,16 @@ func (l *Lexer) nextName() {
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
 	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
+	if !isHexDigit(l.ch) {
+		l.step()
+		return
+	}
+
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+	if isWhitespace(l.ch) {
 		l.step()
-		if isWhitespace(l.ch) {
-			l.step()
-		}
 	}
 }
 
-- 
2.43.0

