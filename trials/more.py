H='template/template_handler.go'; P='template/template_process.go'; T='template/template.go'; R='template/extra_runtime.go'; M='main.go'; C='context.go'; F='template/func_table.go'; Z='template/razor.go'; EH='template/template_error_handler.go'
D='template/extra_data.go'; O='template/extra_os.go'; U='utils/files.go'
def bug(p, name, *edits): return dict(kind='bug', name='more bug %s: '%p+name, props=p.split(), edits=list(edits))
def ok(ps, name, *edits): return dict(kind='ok', name='more ok: '+name, props=ps.split(), edits=list(edits))
ALL='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C22 C23 C24 C25 C26 C30 C31'
ERR='''	result, changed, err := t.processContentInternal(content, template, nil, 0, true, handler)
	if err != nil {
		return
	}
'''
OPT='''	t.options = make(OptionsSet)
	for k, v := range iif(options != nil, options, DefaultOptions()).(OptionsSet) {
		t.options[k] = v
	}
'''
NEWO='''	newTemplate.options = make(OptionsSet)

	// We duplicate the options because the new context may alter them afterwhile and
	// it should not modify the original values.
	for k, v := range t.options {
		newTemplate.options[k] = v
	}
'''
TRIALS = [
 bug('C03', 'code printed in spite of errors', (H, ERR, ERR.replace('err != nil {', 'err != nil && (!isCode || result == "") {'))),
 bug('C03', 'partial result kept', (H, ERR, ERR.replace('err != nil {', 'err != nil && result == "" {'))),
 bug('C03', 'errors of recovered tries', (H, ERR, ERR.replace('		return\n', '		if strings.Contains(err.Error(), noValueError) {\n			Print(result)\n		}\n		return\n'))),
 bug('C05', 'status of formatting', (M, '		if err := utils.TerraformFormat(resultFiles...); err != nil {\n			errors.Print(err)\n			exitCode = 1\n', '		if err := utils.TerraformFormat(resultFiles...); err != nil {\n			errors.Print(err)\n')),
 bug('C05', 'status when some files are done', (M, '''	if err != nil {
		errors.Print(err)
		exitCode = 1
	}

	// Apply''', '''	if err != nil {
		errors.Print(err)
		if len(resultFiles) == 0 {
			exitCode = 1
		}
	}

	// Apply''')),
 bug('C05', 'status of last', (M, '	// Apply terraform fmt', '	exitCode = 0\n	// Apply terraform fmt')),
 bug('C05', 'missing source with templates', (M, '		if !*ignoreMissingSource {', '		if !*ignoreMissingSource && len(*templates) == 0 {')),
 bug('C05', 'runtime panics only', (M, '			exitCode = -1\n', '			if _, ok := rec.(error); ok {\n				exitCode = -1\n			}\n')),
 bug('C05', 'status wraps', (M, '			exitCode = -1\n', '			exitCode = 256\n')),
 bug('C05', 'exclusion error shadowed', (M, '''	*templates, err = exclude(*templates, *excludedPatterns)
	if err != nil {
		errors.Print(err)
		exitCode = 1
	}
''', '''	if selected, err := exclude(*templates, *excludedPatterns); err != nil {
		errors.Print(err)
	} else {
		*templates = selected
	}
''')),
 bug('C08', 'options of caller kept', (T, OPT, '	t.options = options\n	if options == nil {\n		t.options = DefaultOptions()\n	}\n')),
 bug('C08', 'copied only when cached', (T, NEWO, '	newTemplate.options = t.options\n	if useCache {\n		newTemplate.options = make(OptionsSet)\n		for k, v := range t.options {\n			newTemplate.options[k] = v\n		}\n	}\n')),
 bug('C08', 'default for new contexts', (T, NEWO, NEWO.replace('	newTemplate.options = make(OptionsSet)\n', '	if newTemplate.options == nil {\n		newTemplate.options = make(OptionsSet)\n	}\n'))),
 bug('C08', 'caller options completed', (T, '	if acceptNoValue {\n		t.options[AcceptNoValue]', '	if acceptNoValue && options != nil {\n		options[AcceptNoValue] = true\n	}\n	if acceptNoValue {\n		t.options[AcceptNoValue]')),
 bug('C08', 'parent option switched', (R, '	parentContext := t.context\n', '	parentContext := t.context\n	if t.parent != nil {\n		t.parent.options[OutputStdout] = t.options[OutputStdout]\n	}\n')),
 bug('C09', 'razor in no-gotemplate', (T, '	return strings.Contains(code, t.RazorDelim()) && !strings.Contains(code, noGoTemplate) && !strings.Contains(code, noRazor)', '	return strings.Contains(code, t.RazorDelim()) && !strings.Contains(code, noRazor)')),
 bug('C09', 'rendering disabled for templates only', (H, '		if t.options[RenderingDisabled] || !t.IsCode(th.Code) {', '		if t.options[RenderingDisabled] && !t.isTemplate(th.Filename) || !t.IsCode(th.Code) {')),
 bug('C09', 'included without the option', (R, '		razor, _ := t.applyRazor([]byte(source))\n', '		saved := t.options[Razor]\n		t.options[Razor] = true\n		razor, _ := t.applyRazor([]byte(source))\n		t.options[Razor] = saved\n')),
 bug('C09', 'opt out on the first line', (T, '	return !strings.Contains(code, noGoTemplate) && (', '	return !strings.Contains(strings.SplitN(code, "\\n", 2)[0], noGoTemplate) && (')),
 bug('C10', 'nil not counted', (H, 'count := s.Replace(nilValue, noValue).Count(noValue)', 'count := s.Count(noValue)')),
 bug('C10', 'only for isolated', (H, '	if topCall && !t.options[AcceptNoValue] {\n		s :=', '	if topCall && cloneContext && !t.options[AcceptNoValue] {\n		s :=')),
 bug('C10', 'accepted by include', (R, '	if !t.options[AcceptNoValue] {\n		// Detect', '	if !t.options[AcceptNoValue] && withClone {\n		// Detect')),
 bug('C10', 'strict only', (H, '		if count > 0 {\n			// If there are invalid values, we set', '		if count > 0 && t.options[StrictErrorCheck] {\n			// If there are invalid values, we set')),
 bug('C30', 'compared with the code', (H, '	changed = result != originalContent\n', '	changed = result != th.Code\n')),
 bug('C30', 'blanks do not count', (H, '	changed = result != originalContent\n', '	changed = strings.TrimSpace(result) != strings.TrimSpace(originalContent)\n')),
 bug('C30', 'razor only is a change', (H, 'return revertReplacements(th.Code), false, nil', 'return revertReplacements(th.Code), len(razor) != len(originalContent), nil')),
 bug('C30', 'ignored errors change', (H, '					changed = false\n', '')),
 bug('C30', 'length only', (H, '	changed = result != originalContent\n', '	changed = len(result) != len(originalContent)\n')),
 bug('C23', 'early return of functions', (F, '	defer templateMutex.Unlock()\n\n	if t.functions == nil {\n		t.functions = make(funcTableMap)\n	}\n', '	if len(funcMap) == 0 {\n		return t\n	}\n	defer templateMutex.Unlock()\n\n	if t.functions == nil {\n		t.functions = make(funcTableMap)\n	}\n')),
 bug('C23', 'rendering under the lock', (H, '		newTemplate, err = newTemplate.Parse(th.Code)\n	}()', '		if newTemplate, err = newTemplate.Parse(th.Code); err != nil && th.Try < 0 {\n			result, changed, err = th.Handler(err)\n		}\n	}()')),
 bug('C23', 'razor calls functions', (Z, '	t.ensureInit()\n', '	t.ensureInit()\n	t.addFunctions(nil)\n'), (F, '	t.Funcs(funcMap.convert())\n', '	if razorMutex.TryLock() {\n		razorMutex.Unlock()\n	}\n	t.Funcs(funcMap.convert())\n')) if False else
 bug('C25', 'panic of a file rethrown', (H, '	defer func() { err = trapError(err, recover()) }()\n\n	isCode', '	defer func() {\n		if rec := recover(); rec != nil {\n			if _, ok := rec.(error); !ok {\n				panic(rec)\n			}\n			err = trapError(err, rec)\n		}\n	}()\n\n	isCode')),
 bug('C25', 'panic with a nil error', (T, '			result, err = nil, fmt.Errorf("%v", rec)\n', '			if e, ok := rec.(error); ok {\n				result, err = nil, e\n			}\n')),
 bug('C24', 'folder kept on writing error', (P, '		defer os.RemoveAll(tempFolder)\n', ''), (P, '		result = string(bytes)\n', '		result = string(bytes)\n		os.RemoveAll(tempFolder)\n')),
 bug('C02', 'option read before rendering', (H, '	isCode := t.IsCode(template)\n', '	isCode, print := t.IsCode(template), t.options[OutputStdout]\n'), (H, '	if t.options[OutputStdout] {\n		err = t.printResult', '	if print {\n		err = t.printResult')),
 bug('C02', 'target folder made first', (H, '	if t.options[OutputStdout] {\n		err = t.printResult', '	_ = os.MkdirAll(filepath.Dir(resultFile), 0777)\n	if t.options[OutputStdout] {\n		err = t.printResult')),
 bug('C02', 'unformatted beside', (P, 'os.MkdirTemp(t.tempFolder, base)', 'filepath.Dir(target), os.MkdirAll(filepath.Dir(target), 0777)'), (P, '		defer os.RemoveAll(tempFolder)\n', '')),
 ok(ALL, 'options copied by a helper', (T, OPT, '	t.options = copyOptions(options)\n'), (T, NEWO, '	newTemplate.options = copyOptions(t.options)\n'), (T, '// MustNewTemplate creates', 'func copyOptions(from OptionsSet) OptionsSet {\n	if from == nil {\n		return DefaultOptions()\n	}\n	result := make(OptionsSet, len(from))\n	for option, on := range from {\n		result[option] = on\n	}\n	return result\n}\n\n// MustNewTemplate creates')),
 ok(ALL, 'options copied by maps', (T, NEWO, '	newTemplate.options = maps.Clone(t.options)\n'), (T, 'import (\n', 'import (\n	"maps"\n')),
 ok(ALL, 'changed tested first', (H, '	changed = result != originalContent\n	return\n', '	if result == originalContent {\n		return result, false, err\n	}\n	return result, true, err\n')),
 ok(ALL, 'status in one place', (M, '''	if err != nil {
		errors.Print(err)
		exitCode = 1
	}

	// Apply''', '''	failed := err != nil
	if failed {
		errors.Print(err)
		exitCode = 1
	}

	// Apply''')),
 ok(ALL, 'report helper', (M, '''	if err != nil {
		errors.Print(err)
		exitCode = 1
	}

	// Apply terraform fmt if some generated files are terraform files
	if !*printOutput {
		if err := utils.TerraformFormat(resultFiles...); err != nil {
			errors.Print(err)
			exitCode = 1
		}
	}
''', '''	report := func(err error) {
		if err != nil {
			errors.Print(err)
			exitCode = 1
		}
	}
	report(err)

	// Apply terraform fmt if some generated files are terraform files
	if !*printOutput {
		report(utils.TerraformFormat(resultFiles...))
	}
''')),
 ok(ALL, 'disabled and code apart', (H, '		if t.options[RenderingDisabled] || !t.IsCode(th.Code) {\n', '		evaluate := t.IsCode(th.Code)\n		if t.options[RenderingDisabled] {\n			evaluate = false\n		}\n		if !evaluate {\n')),
 ok(ALL, 'undefined counted by a helper', (H, '		count := s.Replace(nilValue, noValue).Count(noValue)\n', '		count := undefinedIn(result)\n'), (H, 'func (t *Template) processTemplate(', 'func undefinedIn(text string) int {\n	return strings.Count(text, noValue) + strings.Count(text, nilValue)\n}\n\nfunc (t *Template) processTemplate(')),
 ok(ALL, 'reading the file apart', (H, '''	isCode := t.IsCode(template)
	var content string

	if fileContent, fileError := os.ReadFile(template); fileError == nil {
		content = string(fileContent)
		isCode = false
	} else if isCode {
		content = template
		template = "."
	} else {
		err = fileError
		return
	}
''', '''	var content string
	isCode := false
	fileContent, fileError := os.ReadFile(template)
	switch {
	case fileError == nil:
		content = string(fileContent)
	case t.IsCode(template):
		content, template, isCode = template, ".", true
	default:
		return "", fileError
	}
''')),
 ok(ALL, 'name of the result apart', (H, '''	resultFile = template
	for i := range templateExt {
		resultFile = strings.TrimSuffix(resultFile, templateExt[i])
	}
	resultFile = getTargetFile(resultFile, sourceFolder, targetFolder)
''', '''	resultFile = getTargetFile(withoutTemplateExt(template), sourceFolder, targetFolder)
'''), (H, 'func (t *Template) processTemplate(', 'func withoutTemplateExt(name string) string {\n	for _, ext := range templateExt {\n		name = strings.TrimSuffix(name, ext)\n	}\n	return name\n}\n\nfunc (t *Template) processTemplate(')),
 ok(ALL, 'strict mode helper', (H, '''				strictMode := t.options[StrictErrorCheck]
				strictMode = strictMode || strings.Contains(th.Source, explicitGoTemplate)
				extension := filepath.Ext(th.Filename)
				strictMode = strictMode || (extension != "" && strings.Contains(".gt,.gte,.template", extension))
				if !(strictMode) {
''', '''				if !t.strict(th.Source, filepath.Ext(th.Filename)) {
'''), (H, 'func (t *Template) processTemplate(', 'func (t *Template) strict(source, extension string) bool {\n	if t.options[StrictErrorCheck] || strings.Contains(source, explicitGoTemplate) {\n		return true\n	}\n	return extension != "" && strings.Contains(".gt,.gte,.template", extension)\n}\n\nfunc (t *Template) processTemplate(')),
 ok(ALL, 'parsing apart', (H, '''	func() {
		// Here, we invoke the parser within a pseudo func because we cannot
		// call the parser without locking
		templateMutex.Lock()
		defer templateMutex.Unlock()
		newTemplate, err = newTemplate.Parse(th.Code)
	}()
	if err != nil {
''', '''	if newTemplate, err = parseLocked(newTemplate, th.Code); err != nil {
'''), (H, 'func (t *Template) processTemplate(', 'func parseLocked(target *template.Template, code string) (*template.Template, error) {\n	templateMutex.Lock()\n	defer templateMutex.Unlock()\n	return target.Parse(code)\n}\n\nfunc (t *Template) processTemplate('), (H, '	"strings"\n', '	"strings"\n	"text/template"\n')),
]
