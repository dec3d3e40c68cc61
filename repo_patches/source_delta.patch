From 99aaea2e1d4672286733d37265fb74505959ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 01/28] fix: print mode no longer panics on terraform files
 (CreateTemp result used as a folder)

---
 template/template_process.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..1bb568d 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -53,7 +53,11 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		var tempFolder string
+		if tempFolder, err = os.MkdirTemp(t.tempFolder, base); err != nil {
+			return
+		}
+		defer os.RemoveAll(tempFolder)
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
-- 
2.43.0


From c8b6377b324311c69c1a6e117f78032a999f70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 02/28] fix: a file that cannot be moved, created or read is
 reported without panicking, so the other files are still processed

---
 template/template_handler.go | 14 +++++++++++---
 template/template_process.go |  5 ++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..305bab5 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -108,14 +108,22 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	mode := must(os.Stat(template)).(os.FileInfo).Mode()
+	info, err := os.Stat(template)
+	if err != nil {
+		return
+	}
+	mode := info.Mode()
 
 	if sourceFolder != targetFolder {
-		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
+		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
+			return
+		}
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
 		InternalLog.Infof("%s => %s", utils.Relative(t.folder, template), utils.Relative(t.folder, newName))
-		must(os.Rename(template, template+".original"))
+		if err = os.Rename(template, newName); err != nil {
+			return
+		}
 	}
 	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
 
diff --git a/template/template_process.go b/template/template_process.go
index 1bb568d..f705889 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -64,7 +64,10 @@ func (t *Template) printResult(source, target, result string, changed bool) (err
 			return
 		}
 		err = utils.TerraformFormat(tempFile)
-		bytes := must(os.ReadFile(tempFile)).([]byte)
+		bytes, errRead := os.ReadFile(tempFile)
+		if errRead != nil {
+			return errRead
+		}
 		result = string(bytes)
 	}
 
-- 
2.43.0


From 191363b6e4d352867c4dbe30329aa44a98b74d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 03/28] fix: report the failure to remove a template replaced
 by its result

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 305bab5..137dc90 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -136,7 +136,7 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 	}
 
 	if isTemplate && t.options[Overwrite] && sourceFolder == targetFolder {
-		os.Remove(template)
+		err = os.Remove(template)
 	}
 	return
 }
-- 
2.43.0


From 1da89306f77a8722778bae9c927148210a8492b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 04/28] fix: failures of terraform fmt are reported instead of
 panicking or being dropped

---
 main.go            | 5 ++++-
 utils/terraform.go | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 67cda35..7dc0dac 100644
--- a/main.go
+++ b/main.go
@@ -308,7 +308,10 @@ func runGotemplate() (exitCode int) {
 
 	// Apply terraform fmt if some generated files are terraform files
 	if !*printOutput {
-		utils.TerraformFormat(resultFiles...)
+		if err := utils.TerraformFormat(resultFiles...); err != nil {
+			errors.Print(err)
+			exitCode = 1
+		}
 	}
 	return
 }
diff --git a/utils/terraform.go b/utils/terraform.go
index 462eae4..71c2f20 100644
--- a/utils/terraform.go
+++ b/utils/terraform.go
@@ -37,14 +37,16 @@ func TerraformFormat(files ...string) error {
 		cmd := exec.Command("terraform", "fmt")
 		cmd.Dir = folder
 		if output, err := cmd.CombinedOutput(); err != nil {
-			errs = append(errs, fmt.Errorf("%w: %s", errs, strings.TrimSpace(string(output))))
+			errs = append(errs, fmt.Errorf("%w: %s", err, strings.TrimSpace(string(output))))
 			continue
 		}
 
 		// Sometimes, terraform fmt needs to be executed twice to format its content properly...
 		cmd = exec.Command("terraform", "fmt")
 		cmd.Dir = folder
-		errors.Must(cmd.Run())
+		if err := cmd.Run(); err != nil {
+			errs = append(errs, err)
+		}
 	}
 	return errs.AsError()
 }
-- 
2.43.0


From 62ae0adbea8699f811c910fe7e2e4ec4a8f106ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 05/28] fix: sprig function all must not share the without
 alias (which one is called depended on map order)

---
 template/extra_sprig.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 4b21926..2a4dab0 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -162,7 +162,7 @@ var sprigFuncRef = map[string]struct {
 	"subSprig":   {group: sprigMath, description: "Subtracts a number from another number.`", aliases: []string{"sub"}},
 
 	"seq":       {group: sprigMath, description: "Works like the bash seq command."},
-	"until":     {group: sprigMath, description: "Builds a range of integers.", aliases: []string{"until"}},
+	"until":     {group: sprigMath, description: "Builds a range of integers."},
 	"untilStep": {group: sprigMath, description: "Generates a list of counting integers. But it allows you to define a start, stop, and step"},
 
 	// Defaults
@@ -224,7 +224,7 @@ var sprigFuncRef = map[string]struct {
 	"valuesSprig":    {group: sprigDict, description: "Is similar to 'keys', except it returns a new 'list' with all the values of the source 'dict' (only one dictionary is supported).", aliases: []string{"values"}},
 
 	// Lists functions
-	"all":          {group: sprigList, description: "Filters items out of a list.", aliases: []string{"without"}},
+	"all":          {group: sprigList, description: "Takes a list of values and returns true if all values are non-empty."},
 	"any":          {group: sprigList, description: "Takes a list of values and returns true if any values are non-empty."},
 	"appendSprig":  {group: sprigList, description: "Append a new item to an existing list, creating a new list.", aliases: []string{"append"}},
 	"chunk":        {group: sprigList, description: "Split a list into chunks of given size, use chunk size list. This is useful for pagination.", arguments: []string{"nbChunks", "list"}},
-- 
2.43.0


From 5399a9c124f3e0d599e431d3ccd49162656f053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 06/28] fix: categories takes no argument, do not document one

---
 template/extra_runtime.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 57c7393..b047b33 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -24,7 +24,6 @@ var runtimeFuncsArgs = arguments{
 	"alias":         {"name", "function", "source"},
 	"assert":        {"test", "message", "arguments"},
 	"assertWarning": {"test", "message", "arguments"},
-	"categories":    {"functionsGroups"},
 	"ellipsis":      {"function"},
 	"exec":          {"command"},
 	"exit":          {"exitValue"},
-- 
2.43.0


From 83fd37b7c859cf82394b7a6cad59a5a50895eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 07/28] fix: razor honours custom delimiters (quoted in every
 regular expression and used in every replacement)

---
 template/razor.go               | 16 +++++++++++-----
 template/razor_repl_assign.go   |  4 ++--
 template/razor_repl_autowrap.go |  3 ++-
 template/razor_repl_expr.go     | 13 ++++++++++---
 template/razor_repl_literal.go  |  5 +++--
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index c37f2c6..f65d504 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -24,7 +24,7 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 		if strings.HasSuffix(ignoredExpr, "*") || strings.HasSuffix(ignoredExpr, "+") {
 			ignoredExpr += `?` // Ensure that the regex is not greedy
 		}
-		ignoredExpr = t.RazorDelim() + ignoredExpr + `\b` // Stop at the end of the expression
+		ignoredExpr = regexp.QuoteMeta(t.RazorDelim()) + ignoredExpr + `\b` // Stop at the end of the expression
 		content = regexp.MustCompile(ignoredExpr).ReplaceAllFunc(content, func(match []byte) []byte {
 			return []byte(strings.Replace(string(match), t.RazorDelim(), literalAt, 1))
 		})
@@ -161,13 +161,18 @@ func (t *Template) ensureInit() {
 	delimiters := fmt.Sprint(t.delimiters)
 	if _, ok := replacementsInit[delimiters]; !ok {
 		// We must ensure that search and replacement expression are compatible with the set of delimiters
+		// (quoted in the regular expressions, including in the character classes, and with $ escaped in the replacements)
+		quote := func(delim string) string { return strings.ReplaceAll(regexp.QuoteMeta(delim), "-", `\-`) }
+		escape := func(delim string) string { return strings.ReplaceAll(delim, "$", "$$") }
+		adaptSearch := strings.NewReplacer("@", quote(t.RazorDelim()), "{{", quote(t.LeftDelim()), "}}", quote(t.RightDelim()))
+		// A closing brace could immediately precede the right delimiter, as in ${group}}}
+		right := escape(t.RightDelim())
+		adaptReplace := strings.NewReplacer("@", escape(t.RazorDelim()), "{{", escape(t.LeftDelim()), "}}}", "}"+right, "}}", right)
 		replacements := make([]replacement, 0, len(expressions))
 		for _, expr := range expressions {
 			comment := expr[0].(string)
-			re := strings.Replace(expr[1].(string), "@", regexp.QuoteMeta(t.RazorDelim()), -1)
-			re = strings.Replace(re, "{{", regexp.QuoteMeta(t.LeftDelim()), -1)
-			re = strings.Replace(re, "}}", regexp.QuoteMeta(t.RightDelim()), -1)
-			replace := strings.Replace(strings.Replace(strings.Replace(expr[2].(string), "{{", t.LeftDelim(), -1), "}}", t.RightDelim(), -1), "@", t.RazorDelim(), -1)
+			re := expr[1].(string)
+			replace := adaptReplace.Replace(expr[2].(string))
 			var exprParser replacementFunc
 			if len(expr) >= 4 {
 				exprParser = expr[3].(replacementFunc)
@@ -190,6 +195,7 @@ func (t *Template) ensureInit() {
 			}
 
 			for i := range subExpressions {
+				subExpressions[i] = adaptSearch.Replace(subExpressions[i])
 				re := regexp.MustCompile(subExpressions[i])
 				replacements = append(replacements, replacement{comment, subExpressions[i], replace, re, exprParser, t.delimiters})
 			}
diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index f94df78..56cb76c 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -17,7 +17,7 @@ func assignExpressionAcceptError(repl replacement, match string) string {
 
 func assignExpressionInternal(repl replacement, match string, acceptError bool) string {
 	matches, _ := reutils.MultiMatch(match, repl.re)
-	tp := matches["type"]
+	tp := strings.Replace(matches["type"], repl.delimiters[2], "@", 1)
 	id := matches["id"]
 	expr := matches["expr"]
 	assign := matches["assign"]
@@ -54,7 +54,7 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 	}
 
 	var err error
-	if expr, err = expressionParserInternal(exprRepl, expr, true, internal); err != nil && !acceptError {
+	if expr, err = expressionParserInternal(repl.subExpression(), expr, true, internal); err != nil && !acceptError {
 		return match
 	}
 
diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index fc37425..f52bafb 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -17,7 +17,8 @@ func autoWrap(repl replacement, match string) string {
 		return match
 	}
 	after := context[len(args):]
-	return fmt.Sprintf("@%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+	return fmt.Sprintf("%s%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+		repl.delimiters[2],
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 2615257..b3de79b 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -63,7 +63,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		// We first protect strings declared in the expression
 		protected, includedStrings := String(expression).Protect()
 		for i := range includedStrings {
-			includedStrings[i] = includedStrings[i].Replace("@", literalAt)
+			includedStrings[i] = includedStrings[i].Replace(repl.delimiters[2], literalAt)
 		}
 
 		// We transform the expression into a valid go statement
@@ -104,7 +104,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
 		for i := range values {
-			if values[i], err = expressionParserInternal(exprRepl, values[i], true, true); err != nil {
+			if values[i], err = expressionParserInternal(repl.subExpression(), values[i], true, true); err != nil {
 				return match, err
 			}
 		}
@@ -114,7 +114,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 	}
 
 	if selectExpr := matches["selection"]; selectExpr != "" {
-		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
+		if selectExpr, err = expressionParserInternal(repl.subExpression(), selectExpr, true, true); err != nil {
 			return match, err
 		}
 		repl.replace = strings.Replace(repl.replace, "${selection}", selectExpr, -1)
@@ -160,6 +160,13 @@ var exprRepl = replacement{
 	replace: `${expr}`,
 }
 
+// subExpression returns the replacement used to evaluate a part of the current one.
+func (r replacement) subExpression() replacement {
+	result := exprRepl
+	result.delimiters = r.delimiters
+	return result
+}
+
 func indexExpression(expr string) string {
 	expr = negativeSlice.ReplaceAllString(expr, "[${index}:0]")
 	expr = strings.Replace(expr, "[]", "[0:-1]", -1)
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 58ee78b..05bfdb8 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -26,9 +26,10 @@ func protectMultiLineStrings(repl replacement, match string) string {
 var longStrings []string
 
 func protectEmail(repl replacement, match string) string {
-	if match[0] == '@' || match[0] == '#' {
+	razorDelim := repl.delimiters[2]
+	if strings.HasPrefix(match, razorDelim) || match[0] == '#' {
 		// This is not an email
 		return match
 	}
-	return strings.Replace(match, "@", "@@", 1)
+	return strings.Replace(match, razorDelim, razorDelim+razorDelim, 1)
 }
-- 
2.43.0


From 3576177ee01630557adf9d1ba5a849002e38cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 08/28] fix: razor expressions are rewritten in a fixed order
 instead of map order

---
 template/razor_repl_expr.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index b3de79b..26076cc 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/parser"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/coveooss/multilogger/reutils"
@@ -28,12 +29,17 @@ var (
 		"$", "...",
 		"range", "default", "func", "type", "struct", "map",
 	}
+	sortedOperators = make([]string, 0, len(operators))
 )
 
 func init() {
 	for i, key := range reservedKeywords {
 		reserved[key] = fmt.Sprintf("__REPL_%d__", i)
 	}
+	for key := range operators {
+		sortedOperators = append(sortedOperators, key)
+	}
+	sort.Strings(sortedOperators)
 }
 
 var dotPrefix = regexp.MustCompile(`(?P<prefix>^|[^\w\)\]])\.(?P<value>\w[\w\.]*)?`)
@@ -67,22 +73,23 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		}
 
 		// We transform the expression into a valid go statement
-		for k, v := range reserved {
-			protected = protected.Replace(k, v)
+		// (always in the same order since a replacement may affect the following ones)
+		for _, key := range reservedKeywords {
+			protected = protected.Replace(key, reserved[key])
 		}
 		protected = String(dotPrefix.ReplaceAllString(protected.Str(), fmt.Sprintf("${prefix}%s${value}", dotRep)))
-		for k, v := range map[string]string{
-			"<>": "!=", "≠": "!=",
-			"÷": "/",
-			"≦": "<=", "≧": ">=",
-			"«": "<<", "»": ">>",
-			reserved["..."]: "...",
+		for _, synonym := range [][2]string{
+			{"<>", "!="}, {"≠", "!="},
+			{"÷", "/"},
+			{"≦", "<="}, {"≧", ">="},
+			{"«", "<<"}, {"»", ">>"},
+			{reserved["..."], "..."},
 		} {
-			protected = protected.Replace(k, v)
+			protected = protected.Replace(synonym[0], synonym[1])
 		}
 
-		for key, val := range operators {
-			protected = protected.Replace(" "+val+" ", key)
+		for _, key := range sortedOperators {
+			protected = protected.Replace(" "+operators[key]+" ", key)
 		}
 		// We add support to partial slice
 		protected = String(indexExpression(protected.Str()))
-- 
2.43.0


From 43af1fe29f50a8aaf6f445d398a1017ec2eb7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 09/28] fix: adding or removing elements never alters the
 supplied arguments nor lists sharing the same storage

---
 collections/implementation/list_helper.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..cce977a 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -17,14 +17,18 @@ type ListHelper struct {
 
 // Add adds elements at the end of the supplied list.
 func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) baseIList {
-	array := list.AsArray()
+	// The result never shares its storage with the list or with the supplied objects
+	added := make([]interface{}, len(objects))
 	for i := range objects {
-		objects[i] = lh.Convert(objects[i])
+		added[i] = lh.Convert(objects[i])
 	}
+	first, second := list.AsArray(), added
 	if prepend {
-		array, objects = objects, array
+		first, second = second, first
 	}
-	return lh.AsList(append(array, objects...))
+	result := make([]interface{}, 0, len(first)+len(second))
+	result = append(result, first...)
+	return lh.AsList(append(result, second...))
 }
 
 // Clone returns a copy of the supplied list.
@@ -166,12 +170,14 @@ func (lh ListHelper) Intersect(list baseIList, values ...interface{}) baseIList
 
 // Remove returns a new list without the element specified.
 func (lh ListHelper) Remove(list baseIList, indexes ...int) baseIList {
+	positions := make([]int, len(indexes))
 	for i, index := range indexes {
 		if index < 0 {
-			indexes[i] += list.Len()
+			index += list.Len()
 		}
+		positions[i] = index
 	}
-	discard := collections.AsList(indexes)
+	discard := collections.AsList(positions)
 	target := list.Create(0, list.Len())
 	for i := range list.AsArray() {
 		if !discard.Contains(i) {
-- 
2.43.0


From 952dbf333ec0740325a03fb4bdce4c5f89d63b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 10/28] fix: merging several dictionaries does not alter the
 sources

---
 collections/implementation/dict_helper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..2a971f2 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -152,7 +152,12 @@ func (dh DictHelper) deepMerge(target baseIDict, source baseIDict) baseIDict {
 		sourceValueDict, sourceValueIsDict := sourceValue.(baseIDict)
 
 		if sourceValueIsDict && targetValueIsDict {
-			targetMap[key] = dh.deepMerge(targetValueDict, sourceValueDict)
+			// The current value could belong to a previous source, so we do not alter it
+			merged := targetValueDict.Create(targetValueDict.Len())
+			for k, v := range targetValueDict.AsMap() {
+				merged.AsMap()[k] = v
+			}
+			targetMap[key] = dh.deepMerge(merged, sourceValueDict)
 		}
 	}
 
-- 
2.43.0


From 0544112893bf44aa36972c952f12b146ec23a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 11/28] fix: func does not alter the supplied configuration

---
 template/extra_runtime.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index b047b33..a1e82b2 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -255,16 +255,18 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 		return "", fmt.Errorf("too many parameters supplied")
 	}
 
+	// The settings are gathered in another dictionary to leave the supplied one unaltered
+	settings := collections.CreateDictionary()
 	for key, val := range config.AsMap() {
 		switch strings.ToLower(key) {
 		case "d", "desc", "description":
-			config.Set("description", val)
+			settings.Set("description", val)
 		case "g", "group":
-			config.Set("group", val)
+			settings.Set("group", val)
 		case "a", "args", "arguments":
 			switch val := val.(type) {
 			case iList:
-				config.Set("args", val)
+				settings.Set("args", val)
 			default:
 				err = fmt.Errorf("%[1]s must be a list of strings: %[2]T %[2]v", key, val)
 				return
@@ -272,7 +274,7 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 		case "aliases":
 			switch val := val.(type) {
 			case iList:
-				config.Set("aliases", val)
+				settings.Set("aliases", val)
 			default:
 				err = fmt.Errorf("%[1]s must be a list of strings: %[2]T %[2]v", key, val)
 				return
@@ -280,7 +282,7 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 		case "def", "default", "defaults":
 			switch val := val.(type) {
 			case iDictionary:
-				config.Set("def", val)
+				settings.Set("def", val)
 			default:
 				err = fmt.Errorf("%s must be a dictionary: %T", key, val)
 				return
@@ -289,6 +291,7 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 			return "", fmt.Errorf("unknown configuration %s", key)
 		}
 	}
+	config = settings
 
 	emptyList := collections.CreateList()
 	fi := &FuncInfo{
-- 
2.43.0


From a80e8dc8ceaae2dde0a4a15ff5b4872d9f3d7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:31 +0000
Subject: [PATCH 12/28] fix: cloning a list copies the lists and dictionaries
 it contains

---
 collections/implementation/list_helper.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index cce977a..ba734a9 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -31,9 +31,20 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 	return lh.AsList(append(result, second...))
 }
 
-// Clone returns a copy of the supplied list.
+// Clone returns a distinct copy of the supplied list, including the lists and dictionaries it contains.
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	result := lh.CreateList(list.Len())
+	for i, value := range list.AsArray() {
+		if value != nil {
+			if v, err := lh.TryAsDictionary(value); err == nil {
+				value = v.Clone()
+			} else if v, err := lh.TryAsList(value); err == nil {
+				value = v.Clone()
+			}
+		}
+		result.AsArray()[i] = value
+	}
+	return result
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From 6889d0e50e7e27caa2f92863f819d5513fa0e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:14 +0000
Subject: [PATCH 13/28] fix: pluck returns the values found and pickv picks
 each key

---
 template/extra_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index df47fb3..f050b0f 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -524,7 +524,7 @@ func pickv(dict iDictionary, message string, key interface{}, otherKeys ...inter
 		}
 		return nil, errors.New(message)
 	}
-	return pick(dict, append(otherKeys, key)), nil
+	return pick(dict, append(otherKeys, key)...), nil
 }
 
 func keys(dict iDictionary) iList   { return dict.GetKeys() }
@@ -546,7 +546,7 @@ func pluck(key interface{}, dicts ...iDictionary) iList {
 	result := collections.CreateList(0, len(dicts))
 	for i := range dicts {
 		if dicts[i].Has(key) {
-			result.Append(dicts[i].Get(key))
+			result = result.Append(dicts[i].Get(key))
 		}
 	}
 	return result
-- 
2.43.0


From 1a5a7b850c89bf3d96bdeabbe0a6a8031bc06472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 14/28] fix: templates of extensions are imported in a fixed
 order, so which definition wins does not depend on map order

---
 template/template.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/template/template.go b/template/template.go
index 070ebb8..9fbcb5a 100644
--- a/template/template.go
+++ b/template/template.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 	"sync"
 	"text/template"
@@ -286,8 +287,14 @@ func (t *Template) initExtension() {
 	}
 
 	// Add the children contexts to the main context
-	for _, context := range ext.children {
-		t.importTemplates(context)
+	// (always in the same order since several extensions could define the same template)
+	folders := make([]string, 0, len(ext.children))
+	for folder := range ext.children {
+		folders = append(folders, folder)
+	}
+	sort.Strings(folders)
+	for _, folder := range folders {
+		t.importTemplates(ext.children[folder])
 	}
 
 	// We reset the list of templates
-- 
2.43.0


From fca2be57131f549e9a24e56a0b331410ab74ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 15/28] fix: synonym settings of a func configuration are
 applied in a fixed order

---
 template/extra_runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index a1e82b2..8c59ac5 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -257,7 +257,9 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 
 	// The settings are gathered in another dictionary to leave the supplied one unaltered
 	settings := collections.CreateDictionary()
-	for key, val := range config.AsMap() {
+	for _, name := range config.KeysAsString() {
+		key := name.Str()
+		val := config.Get(key)
 		switch strings.ToLower(key) {
 		case "d", "desc", "description":
 			settings.Set("description", val)
-- 
2.43.0


From 02d68934255dddc3797ab56e7519023c974045c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 16/28] fix: examples of the function help are evaluated in a
 fixed order

---
 template/func_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..074b96e 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -246,7 +246,8 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 
 // Completes example that are not fully described.
 func (t *Template) completeExamples() string {
-	for _, function := range t.functions {
+	for _, name := range t.getAllFunctions() {
+		function := t.functions[name]
 		for i := range function.examples {
 			example := &function.examples[i]
 			if example.Razor != "" && example.Template == "" {
-- 
2.43.0


From 96c02480109e15f65eec03db4d53cfded091ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 17/28] fix: variables supplied by a single --var are loaded in
 a fixed order

---
 context.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 20c0620..4c7b4e3 100644
--- a/context.go
+++ b/context.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/coveooss/gotemplate/v3/collections"
@@ -52,8 +53,13 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 			name, value := collections.Split2(namedVars[i], "=")
 			data[name] = value
 		}
-		for key, value := range data {
-			nameValuePairs = append(nameValuePairs, fileDef{name: key, value: value})
+		keys := make([]string, 0, len(data))
+		for key := range data {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			nameValuePairs = append(nameValuePairs, fileDef{name: key, value: data[key]})
 		}
 	}
 
-- 
2.43.0


From ac957f2c51d00ff0b15ed586402fe3d4b90a2044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 18/28] fix: terraform folders are formatted (and errors
 reported) in a fixed order

---
 utils/terraform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/terraform.go b/utils/terraform.go
index 71c2f20..541504e 100644
--- a/utils/terraform.go
+++ b/utils/terraform.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os/exec"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/coveooss/multilogger/errors"
@@ -33,7 +34,12 @@ func TerraformFormat(files ...string) error {
 	}
 
 	var errs errors.Array
+	folders := make([]string, 0, len(tfFolders))
 	for folder := range tfFolders {
+		folders = append(folders, folder)
+	}
+	sort.Strings(folders)
+	for _, folder := range folders {
 		cmd := exec.Command("terraform", "fmt")
 		cmd.Dir = folder
 		if output, err := cmd.CombinedOutput(); err != nil {
-- 
2.43.0


From a7cf1e049232fc902a12db66d33533e1578f48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:47 +0000
Subject: [PATCH 19/28] fix: evaluations retried after an error are also done
 on a copy of the context

---
 template/template_error_handler.go | 3 ++-
 template/template_handler.go       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..b02a6be 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -19,6 +19,7 @@ type errorHandler struct {
 	Code     string   // Modified code
 	Lines    []string // Original source code as an array of string (one per line)
 	Try      int      // The current evaluation try
+	Isolated bool     // Indicates that the evaluation is done on a copy of the context
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
@@ -163,7 +164,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if err != nil {
 				InternalLog.Infof("Retrying %d with:\n%s", t.Try, color.HiBlackString(String(newCode).AddLineNumber(0).Str()))
 			}
-			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, false, nil)
+			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, t.Isolated, nil)
 			if err2 != nil {
 				if err != nil {
 					if err.Error() == err2.Error() {
diff --git a/template/template_handler.go b/template/template_handler.go
index 137dc90..18f2df0 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -149,6 +149,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		Code:     originalContent,
 		Lines:    originalSourceLines,
 		Try:      retryCount,
+		Isolated: cloneContext,
 	}
 
 	topCall := th.Lines == nil
-- 
2.43.0


From 68833609c78b37af62300fc1dfcf80bd8fd7829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 20/28] fix: a template does not alter the options supplied by
 its caller

---
 template/template.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/template/template.go b/template/template.go
index 9fbcb5a..1381bab 100644
--- a/template/template.go
+++ b/template/template.go
@@ -117,7 +117,12 @@ func NewTemplate(folder string, context interface{}, delimiters string, options
 	}()
 	t := Template{Template: template.New("Main")}
 	must(t.Parse(""))
-	t.options = iif(options != nil, options, DefaultOptions()).(OptionsSet)
+	// We duplicate the options because the template may alter them afterwhile and
+	// it should not modify the original values.
+	t.options = make(OptionsSet)
+	for k, v := range iif(options != nil, options, DefaultOptions()).(OptionsSet) {
+		t.options[k] = v
+	}
 	if acceptNoValue {
 		t.options[AcceptNoValue] = true
 	}
-- 
2.43.0


From 8d48d2fce2701839745cd3436e105c6bb9309bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:47 +0000
Subject: [PATCH 21/28] fix: the failure of a documented example is reported
 with its cause

---
 template/func_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/func_table.go b/template/func_table.go
index 074b96e..18dce5c 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -257,7 +257,7 @@ func (t *Template) completeExamples() string {
 			if example.Template != "" && example.Result == "" {
 				var err error
 				if example.Result, err = t.ProcessContent(example.Template, "."); err != nil {
-					InternalLog.Errorf("Error while ")
+					InternalLog.Errorf("Error while processing the example of %s (%s): %v", name, example.Template, err)
 				}
 			}
 		}
-- 
2.43.0


From 28e5e6c45f2612fd5ff774c8312ee27dd7caf28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 22/28] fix: templates translated concurrently do not exchange
 their strings

---
 template/razor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/template/razor.go b/template/razor.go
index f65d504..67470ec 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"sync"
 
 	"github.com/fatih/color"
 	"github.com/sirupsen/logrus"
@@ -14,6 +15,10 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	if !t.options[Razor] || !t.IsRazor(string(content)) {
 		return content, false
 	}
+
+	// The compiled expressions and the protected strings are shared by all templates
+	razorMutex.Lock()
+	defer razorMutex.Unlock()
 	t.ensureInit()
 
 	for _, ignoredExpr := range t.ignoredRazorExpr {
@@ -45,6 +50,8 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	return content, true
 }
 
+var razorMutex sync.Mutex
+
 var highlight = color.New(color.BgHiBlack, color.FgBlack).SprintFunc()
 
 // This is indented to simplify the following regular expression for patterns that are repeated several times
-- 
2.43.0


From d40748b6b7314409a6ef4baaf9950fb5efc649bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 23/28] fix: the default shell is looked up under a lock

---
 utils/exec.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/exec.go b/utils/exec.go
index b9750dd..b66f81d 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 // https://regex101.com/r/ykVKPt/6
@@ -110,6 +111,8 @@ func saveTempFile(content string, args ...interface{}) (cmd *exec.Cmd, fileName
 }
 
 func getDefaultShell() string {
+	defaultShellMutex.Lock()
+	defer defaultShellMutex.Unlock()
 	if defaultShell != "" {
 		return defaultShell
 	}
@@ -126,7 +129,10 @@ func getDefaultShell() string {
 	return defaultShell
 }
 
-var defaultShell string
+var (
+	defaultShell      string
+	defaultShellMutex sync.Mutex
+)
 
 // GetEnv returns the environment variable value or defaultValue if it does not exist.
 func GetEnv(varName, defaultValue string) string {
-- 
2.43.0


From b4fd535b24831a4fc80fe99eafe6674aadd2128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:35 +0000
Subject: [PATCH 24/28] fix: a panic while processing a file is an error of
 that file and does not stop the others

---
 template/template_handler.go | 3 +++
 template/template_process.go | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index 18f2df0..fbb02b1 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -41,6 +41,9 @@ func (t *Template) ProcessTemplatesWithHandler(sourceFolder, targetFolder string
 }
 
 func (t *Template) processTemplate(template, sourceFolder, targetFolder string, handler CustomHandler) (resultFile string, err error) {
+	// A panic while processing a file is an error of that file, the other ones must still be processed
+	defer func() { err = trapError(err, recover()) }()
+
 	isCode := t.IsCode(template)
 	var content string
 
diff --git a/template/template_process.go b/template/template_process.go
index f705889..2f4215f 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -36,6 +36,8 @@ const (
 
 // ProcessContent loads and runs the file template.
 func (t *Template) ProcessContent(content, source string) (result string, err error) {
+	// A panic while processing the content is an error of that content
+	defer func() { err = trapError(err, recover()) }()
 	result, _, err = t.processContentInternal(content, source, nil, 0, true, nil)
 	return
 }
-- 
2.43.0


From 481193a14941f92fc5ee2edaff91a8369c5a1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:56 +0000
Subject: [PATCH 25/28] fix: responses, scripts that could not be written and
 the temporary folder of the program are released

---
 main.go               | 2 ++
 template/extra_net.go | 1 +
 utils/exec.go         | 9 ++++++---
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 7dc0dac..39e9c7d 100644
--- a/main.go
+++ b/main.go
@@ -128,6 +128,7 @@ func runGotemplate() (exitCode int) {
 		// must be specified after the templates. So, we just give it another try by injecting the default command.
 		if command, err = kingpin.CommandLine.Parse(append([]string{"run"}, os.Args[1:]...)); err != nil {
 			kingpin.Usage()
+			cleanup()
 			os.Exit(0)
 		}
 	}
@@ -355,6 +356,7 @@ func helpAction(app *kingpin.Application, c *kingpin.ParseContext) error {
 	}
 	fmt.Println(regexp.MustCompile(`(?ms)^\s+--delimiters.*?-imp\)\n(.*)$`).ReplaceAllString(buffer.String(), "$1"))
 
+	cleanup()
 	os.Exit(0) // Force exit on display help
 	return nil
 }
diff --git a/template/extra_net.go b/template/extra_net.go
index e11c58e..b40e195 100644
--- a/template/extra_net.go
+++ b/template/extra_net.go
@@ -47,5 +47,6 @@ func httpDocument(url interface{}) (interface{}, error) {
 	if err != nil {
 		return response, err
 	}
+	defer response.Body.Close()
 	return goquery.NewDocumentFromReader(response.Body)
 }
diff --git a/utils/exec.go b/utils/exec.go
index b66f81d..2ebaac6 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -97,15 +97,18 @@ func saveTempFile(content string, args ...interface{}) (cmd *exec.Cmd, fileName
 	if temp, err = os.CreateTemp("", "exec_"); err != nil {
 		return
 	}
+	fileName = temp.Name()
 
 	if len(args) > 0 {
 		content += " " + fmt.Sprintln(args...)
 	}
-	if _, err = temp.WriteString(content); err != nil {
+	_, err = temp.WriteString(content)
+	if errClose := temp.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
 		return
 	}
-	temp.Close()
-	fileName = temp.Name()
 	cmd, err = GetCommandFromFile(fileName)
 	return
 }
-- 
2.43.0


From 291a0464266d865dab35d4942a0081db3ef24608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:30 +0000
Subject: [PATCH 26/28] fix: a number sequence always ends and keeps the
 precision of its step

---
 template/extra_sprig.go    |  1 -
 template/math_utilities.go | 10 +++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 2a4dab0..574e115 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -32,7 +32,6 @@ var sprigFuncs funcTableMap
 
 var sprigFuncMap = sprig.GenericFuncMap()
 var sprigDef = sprigFuncMap["default"].(func(interface{}, ...interface{}) interface{})
-var sprigRound = sprigFuncMap["round"].(func(a interface{}, p int, r_opt ...float64) float64)
 
 func (t *Template) addSprigFuncs() {
 	if sprigFuncs == nil {
diff --git a/template/math_utilities.go b/template/math_utilities.go
index 86df30e..c25902a 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -169,7 +169,7 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 		stop = toFloat(params[0])
 	case 3:
 		step = math.Abs(toFloat(params[2]))
-		_, frac := collections.Split2(fmt.Sprintf("%g", step), ".")
+		_, frac := collections.Split2(strconv.FormatFloat(step, 'f', -1, 64), ".")
 		precision = len(frac)
 		fallthrough
 	case 2:
@@ -182,13 +182,17 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 		return nil, fmt.Errorf("step cannot be zero")
 	}
 	array := make([]interface{}, 0, int64(math.Abs(stop-start)))
-	forward := stop > start
+	forward, previous, unit := stop > start, start, math.Pow10(precision)
 	if !forward {
 		step = -step
 	}
 	for current := start; (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
-		current = sprigRound(current, precision)
+		current = math.Round(current*unit) / unit
+		if len(array) > 0 && (forward && !(current > previous) || !forward && !(current < previous)) {
+			return nil, fmt.Errorf("step %g is too small to go on from %g", step, previous)
+		}
 		array = append(array, simplify(current))
+		previous = current
 		current += step
 	}
 	result = collections.AsList(array)
-- 
2.43.0


From d84dfd225a3407ccd0766d7e55df0c94f892c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:30 +0000
Subject: [PATCH 27/28] fix: symbolic links that lead back to a folder being
 searched no longer repeat the search for ever

---
 utils/io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/io.go b/utils/io.go
index 8727828..ed856b6 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -27,6 +27,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	walker = func(folder string) ([]string, error) {
 		results := must(findFiles(folder, patterns...)).([]string)
 		folder, _ = filepath.Abs(folder)
+		visited[folder] = true
 		if maxDepth == 0 {
 			return results, nil
 		}
-- 
2.43.0


From f54261e7fb94385407f065ce78e77ee55b0cec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:25 +0000
Subject: [PATCH 28/28] fix: the search for further errors of a template always
 ends and keeps the errors that it cannot go past

---
 template/template_error_handler.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index b02a6be..8f412c5 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -22,7 +22,11 @@ type errorHandler struct {
 	Isolated bool     // Indicates that the evaluation is done on a copy of the context
 }
 
+// The maximum number of evaluations done after an error to find the further errors of the same template
+const maxTries = 1000
+
 func (t errorHandler) Handler(err error) (string, bool, error) {
+	original := err
 	if t.Lines == nil {
 		t.Lines = strings.Split(t.Source, "\n")
 	}
@@ -140,9 +144,9 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			} else {
 				lines[faultyLine] = currentLine.Replace(context.Str(), runError).Str()
 			}
-		} else if value != "" {
+		} else if undefValue := fmt.Sprintf(`"<UNDEF %s>"`, value); value != "" && !currentLine.Contains(undefValue) {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
-			lines[faultyLine] = currentLine.Replace(value, fmt.Sprintf(`"<UNDEF %s>"`, value)).Str()
+			lines[faultyLine] = currentLine.Replace(value, undefValue).Str()
 		} else {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
 			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
@@ -158,7 +162,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
-		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
+		if lines[faultyLine] != currentLine.Str() && t.Try < maxTries {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
 			if err != nil {
@@ -179,6 +183,10 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			}
 			return result, changed, err
 		}
+		if err == nil {
+			// There is nothing left to try, so the error cannot be considered as handled
+			err = original
+		}
 	}
 	return "", true, err
 }
-- 
2.43.0

