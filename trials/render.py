H = 'template/template_handler.go'
R = 'template/extra_runtime.go'
Z = 'template/razor.go'
T = 'template/template.go'
ALL = ['C09', 'C10', 'C11', 'C30']
LOOP = '''			splitLines := strings.Split(th.Code, "\\n")
			isGoTemplatePaused, isRazorPaused := false, false
			for index, line := range splitLines {
				isGoTemplatePaused = (isGoTemplatePaused || strings.Contains(line, pauseGoTemplate)) && !strings.Contains(line, resumeGoTemplate)
				isRazorPaused = (isRazorPaused || strings.Contains(line, pauseRazor)) && !strings.Contains(line, resumeRazor)
				if isRazorPaused || isGoTemplatePaused {
					splitLines[index] = strings.ReplaceAll(splitLines[index], t.RazorDelim(), razorDelimReplacement)
				}
				if isGoTemplatePaused {
					splitLines[index] = strings.ReplaceAll(splitLines[index], t.LeftDelim(), leftDelimReplacement)
					splitLines[index] = strings.ReplaceAll(splitLines[index], t.RightDelim(), rightDelimReplacement)
				}
			}
			th.Code = strings.Join(splitLines, "\\n")
'''
DISABLED = '''		if t.options[RenderingDisabled] || !t.IsCode(th.Code) {
			// There is no template element to evaluate or the template rendering is off
			return revertReplacements(th.Code), false, nil
		}
'''
PROTECT = '''		if !t.options[AcceptNoValue] {
			// We replace any pre-existing no value to avoid false error detection
			th.Code = strings.Replace(th.Code, noValue, noValueRepl, -1)
			th.Code = strings.Replace(th.Code, nilValue, nilValueRepl, -1)
		}
'''
CHECK = '''	if topCall && !t.options[AcceptNoValue] {
		s := String(result)
'''
TRIALS = [
 # C09
 dict(name='disabled only when not code', kind='bug', props=['C09'], edits=[(H, 't.options[RenderingDisabled] || !t.IsCode(th.Code)', 't.options[RenderingDisabled] && !t.IsCode(th.Code)')]),
 dict(name='disabled ignored for gotemplate files', kind='bug', props=['C09'], edits=[(H, 't.options[RenderingDisabled] || !t.IsCode(th.Code)', 't.options[RenderingDisabled] && !t.isTemplate(th.Filename) || !t.IsCode(th.Code)')]),
 dict(name='no-gotemplate checked on first line only', kind='bug', props=['C09'], edits=[(T, 'return !strings.Contains(code, noGoTemplate) && ', 'return !strings.Contains(strings.SplitN(code, "\\n", 2)[0], noGoTemplate) && ')]),
 dict(name='razor option not checked', kind='bug', props=['C09'], edits=[(Z, '!t.options[Razor] || !t.IsRazor(string(content))', '!t.IsRazor(string(content))')]),
 dict(name='no-razor forgotten', kind='bug', props=['C09'], edits=[(T, '!strings.Contains(code, noGoTemplate) && !strings.Contains(code, noRazor)', '!strings.Contains(code, noGoTemplate)')]),
 # C10
 dict(name='undefined accepted without extension', kind='bug', props=['C10'], edits=[(H, CHECK, CHECK.replace('topCall &&', 'topCall && th.Filename != "." &&'))]),
 dict(name='undefined only counted for no value', kind='bug', props=['C10'], edits=[(H, 's.Replace(nilValue, noValue).Count(noValue)', 's.Count(noValue)')]),
 dict(name='more than one', kind='bug', props=['C10'], edits=[(H, '		if count > 0 {\n			// If there are invalid values, we set', '		if count > 1 {\n			// If there are invalid values, we set')]),
 dict(name='include: nil value', kind='bug', props=['C10'], edits=[(R, '		result = strings.Replace(result, nilValue, noValue, -1)\n', '')]),
 dict(name='include: start of text', kind='bug', props=['C10'], edits=[(R, 'pos >= 0 {\n			lines', 'pos > 0 {\n			lines')]),
 dict(name='include: only without clone', kind='bug', props=['C10'], edits=[(R, '	if !t.options[AcceptNoValue] {', '	if !t.options[AcceptNoValue] && !withClone {')]),
 dict(name='top result replaced before count', kind='bug', props=['C10'], edits=[(H, '		count := s.Replace(nilValue, noValue).Count(noValue)', '		s = s.Replace(noValueRepl, noValue)\n		count := s.Replace(nilValue, noValue).Count(noValue)\n		count -= String(th.Source).Count(noValue)')]),
 # C11
 dict(name='resume takes effect on next line', kind='bug', props=['C11'], edits=[(H, 'isRazorPaused = (isRazorPaused || strings.Contains(line, pauseRazor)) && !strings.Contains(line, resumeRazor)\n				if', 'isRazorPaused = isRazorPaused || strings.Contains(line, pauseRazor)\n				if'), (H, '					splitLines[index] = strings.ReplaceAll(splitLines[index], t.RightDelim(), rightDelimReplacement)\n				}\n', '					splitLines[index] = strings.ReplaceAll(splitLines[index], t.RightDelim(), rightDelimReplacement)\n				}\n				isRazorPaused = isRazorPaused && !strings.Contains(line, resumeRazor)\n')]),
 dict(name='right delimiter left', kind='bug', props=['C11'], edits=[(H, '					splitLines[index] = strings.ReplaceAll(splitLines[index], t.RightDelim(), rightDelimReplacement)\n', '')]),
 dict(name='code pause does not pause razor', kind='bug', props=['C11'], edits=[(H, 'if isRazorPaused || isGoTemplatePaused {', 'if isRazorPaused {')]),
 dict(name='razor resume resumes code', kind='bug', props=['C11'], edits=[(H, '!strings.Contains(line, resumeGoTemplate)', '!strings.Contains(line, resumeGoTemplate) && !strings.Contains(line, resumeRazor)')]),
 dict(name='pausing after razor', kind='bug', props=['C11'], edits=[(H, '		var razor []byte\n		razor, _ = t.applyRazor([]byte(th.Code))\n		th.Code = string(razor)\n', ''), (H, '		if pausingIsEnabled {\n			splitLines', '		var razor []byte\n		razor, _ = t.applyRazor([]byte(th.Code))\n		th.Code = string(razor)\n\n		if pausingIsEnabled {\n			splitLines')]),
 dict(name='not reverted when not code', kind='bug', props=['C11'], edits=[(H, 'return revertReplacements(th.Code), false, nil', 'return th.Code, false, nil')]),
 dict(name='razor delim not reverted', kind='bug', props=['C11'], edits=[(H, '			template = strings.ReplaceAll(template, razorDelimReplacement, t.RazorDelim())\n', '')]),
 dict(name='one occurrence reverted', kind='bug', props=['C11'], edits=[(H, 'strings.ReplaceAll(template, rightDelimReplacement, t.RightDelim())', 'strings.Replace(template, rightDelimReplacement, t.RightDelim(), 1)')]),
 dict(name='nil placeholder not restored', kind='bug', props=['C11'], edits=[(H, '.Replace(nilValueRepl, nilValue)\n', '\n')]),
 dict(name='pausing enabled only for code', kind='bug', props=['C11'], edits=[(H, 'strings.Contains(originalContent, pauseGoTemplate) || strings.Contains(originalContent, pauseRazor)', 'strings.Contains(originalContent, pauseGoTemplate)')]),
 # C30
 dict(name='changed compares code', kind='bug', props=['C30'], edits=[(H, 'changed = result != originalContent', 'changed = result != th.Code')]),
 dict(name='changed trimmed', kind='bug', props=['C30'], edits=[(H, 'changed = result != originalContent', 'changed = strings.TrimSpace(result) != strings.TrimSpace(originalContent)')]),
 dict(name='changed before restoration', kind='bug', props=['C30'], edits=[(H, '	changed = result != originalContent\n	return', '	return'), (H, '	if topCall && !t.options[AcceptNoValue] {\n		s', '	changed = result != originalContent\n	if topCall && !t.options[AcceptNoValue] {\n		s')]),
 dict(name='changed always', kind='bug', props=['C30'], edits=[(H, 'changed = result != originalContent', 'changed = true')]),
 dict(name='changed kept when ignored', kind='bug', props=['C30'], edits=[(H, '					changed = false\n', ''), ]),
 # refactorings
 dict(name='guards separated', kind='ok', props=ALL, edits=[(H, DISABLED, '''		if t.options[RenderingDisabled] {
			return revertReplacements(th.Code), false, nil
		}
		if isCode := t.IsCode(th.Code); !isCode {
			return revertReplacements(th.Code), false, nil
		}
''')]),
 dict(name='protect helper', kind='ok', props=ALL, edits=[(H, PROTECT, '''		if !t.options[AcceptNoValue] {
			th.Code = protectNoValue(th.Code)
		}
'''), (H, 'func (t *Template) processContentInternal(', '''func protectNoValue(code string) string {
	code = strings.ReplaceAll(code, noValue, noValueRepl)
	return strings.ReplaceAll(code, nilValue, nilValueRepl)
}

func (t *Template) processContentInternal(''')]),
 dict(name='protect method on template', kind='ok', props=ALL, edits=[(H, PROTECT, '''		th.Code = t.protectNoValue(th.Code)
'''), (H, 'func (t *Template) processContentInternal(', '''func (t *Template) protectNoValue(code string) string {
	if t.options[AcceptNoValue] {
		return code
	}
	code = strings.ReplaceAll(code, noValue, noValueRepl)
	return strings.ReplaceAll(code, nilValue, nilValueRepl)
}

func (t *Template) processContentInternal(''')]),
 dict(name='razor in one statement', kind='ok', props=ALL, edits=[(H, '''		var razor []byte
		razor, _ = t.applyRazor([]byte(th.Code))
		th.Code = string(razor)
''', '''		if razor, translated := t.applyRazor([]byte(th.Code)); translated {
			th.Code = string(razor)
		}
''')]),
 dict(name='razor guard split', kind='ok', props=ALL, edits=[(Z, '''	if !t.options[Razor] || !t.IsRazor(string(content)) {
		return content, false
	}
''', '''	if !t.options[Razor] {
		return content, false
	}
	if !t.IsRazor(string(content)) {
		return content, false
	}
''')]),
 dict(name='razor rules helper', kind='ok', props=ALL, edits=[(Z, '''		if r.parser == nil {
			content = r.re.ReplaceAll(content, []byte(r.replace))
		} else {
			content = r.re.ReplaceAllFunc(content, func(match []byte) []byte {
				return []byte(r.parser(r, string(match)))
			})
		}
''', '''		content = r.apply(content)
'''), (Z, 'var highlight =', '''func (r replacement) apply(content []byte) []byte {
	if r.parser == nil {
		return r.re.ReplaceAll(content, []byte(r.replace))
	}
	return r.re.ReplaceAllFunc(content, func(match []byte) []byte {
		return []byte(r.parser(r, string(match)))
	})
}

var highlight =''')]),
 dict(name='pausing extracted', kind='ok', props=ALL, edits=[(H, LOOP, '''			th.Code = t.pause(th.Code, leftDelimReplacement, rightDelimReplacement, razorDelimReplacement)
'''), (H, 'func (t *Template) processContentInternal(', '''func (t *Template) pause(code, left, right, razor string) string {
	lines := strings.Split(code, "\\n")
	codePaused, razorPaused := false, false
	for i := range lines {
		codePaused = (codePaused || strings.Contains(lines[i], pauseGoTemplate)) && !strings.Contains(lines[i], resumeGoTemplate)
		razorPaused = (razorPaused || strings.Contains(lines[i], pauseRazor)) && !strings.Contains(lines[i], resumeRazor)
		if !razorPaused && !codePaused {
			continue
		}
		lines[i] = strings.ReplaceAll(lines[i], t.RazorDelim(), razor)
		if codePaused {
			lines[i] = strings.ReplaceAll(lines[i], t.LeftDelim(), left)
			lines[i] = strings.ReplaceAll(lines[i], t.RightDelim(), right)
		}
	}
	return strings.Join(lines, "\\n")
}

func (t *Template) processContentInternal(''')]),
 dict(name='pausing loop with ifs and builder', kind='ok', props=ALL, edits=[(H, LOOP, '''			var protected []string
			isGoTemplatePaused, isRazorPaused := false, false
			for _, line := range strings.Split(th.Code, "\\n") {
				if strings.Contains(line, pauseGoTemplate) {
					isGoTemplatePaused = true
				}
				if strings.Contains(line, resumeGoTemplate) {
					isGoTemplatePaused = false
				}
				if strings.Contains(line, pauseRazor) {
					isRazorPaused = true
				}
				if strings.Contains(line, resumeRazor) {
					isRazorPaused = false
				}
				switch {
				case isGoTemplatePaused:
					line = strings.ReplaceAll(line, t.LeftDelim(), leftDelimReplacement)
					line = strings.ReplaceAll(line, t.RightDelim(), rightDelimReplacement)
					line = strings.ReplaceAll(line, t.RazorDelim(), razorDelimReplacement)
				case isRazorPaused:
					line = strings.ReplaceAll(line, t.RazorDelim(), razorDelimReplacement)
				}
				protected = append(protected, line)
			}
			th.Code = strings.Join(protected, "\\n")
''')]),
 dict(name='change computed in return', kind='ok', props=ALL, edits=[(H, '	changed = result != originalContent\n	return\n', '	return result, result != originalContent, err\n')]),
 dict(name='change with if', kind='ok', props=ALL, edits=[(H, '	changed = result != originalContent\n	return\n', '	if result != originalContent {\n		changed = true\n	}\n	return\n')]),
 dict(name='change early error', kind='ok', props=ALL, edits=[(H, '			err = fmt.Errorf("template: %s:: %s\\n%s", th.Filename, noValueError, color.HiBlackString(s.AddLineNumber(0).Str()))\n		}\n		result = s.Str()\n', '			result = s.Str()\n			return result, result != originalContent, fmt.Errorf("template: %s:: %s\\n%s", th.Filename, noValueError, color.HiBlackString(s.AddLineNumber(0).Str()))\n		}\n		result = s.Str()\n')]),
 dict(name='render loop: detection with strings.Contains', kind='ok', props=ALL, edits=[(R, '''		result = strings.Replace(result, nilValue, noValue, -1)
		if pos := strings.Index(result, noValue); pos >= 0 {
			lines := strings.Split(result[:pos+len(noValue)], "\\n")
			err =''', '''		result = strings.ReplaceAll(result, nilValue, noValue)
		if strings.Contains(result, noValue) {
			pos := strings.Index(result, noValue)
			lines := strings.Split(result[:pos+len(noValue)], "\\n")
			err =''')]),
 dict(name='include check helper', kind='ok', props=ALL, edits=[(R, '''	if !t.options[AcceptNoValue] {
		// Detect possible <no value> or <nil> that could be generated
		result = strings.Replace(result, nilValue, noValue, -1)
		if pos := strings.Index(result, noValue); pos >= 0 {
			lines := strings.Split(result[:pos+len(noValue)], "\\n")
			err = fmt.Errorf(`%s in "%s"`, noValueError, strings.TrimSpace(lines[len(lines)-1]))
			return
		}
	}
''', '''	if result, err = t.checkUndefined(result); err != nil {
		return
	}
'''), (R, 'func (t *Template) runTemplate(', '''func (t *Template) checkUndefined(result string) (string, error) {
	if t.options[AcceptNoValue] {
		return result, nil
	}
	result = strings.Replace(result, nilValue, noValue, -1)
	if pos := strings.Index(result, noValue); pos >= 0 {
		lines := strings.Split(result[:pos+len(noValue)], "\\n")
		return result, fmt.Errorf(`%s in "%s"`, noValueError, strings.TrimSpace(lines[len(lines)-1]))
	}
	return result, nil
}

func (t *Template) runTemplate(''')]),
 dict(name='parse helper method', kind='ok', props=ALL, edits=[(H, '''	func() {
		// Here, we invoke the parser within a pseudo func because we cannot
		// call the parser without locking
		templateMutex.Lock()
		defer templateMutex.Unlock()
		newTemplate, err = newTemplate.Parse(th.Code)
	}()
	if err != nil {''', '''	if newTemplate, err = parseLocked(newTemplate, th.Code); err != nil {'''), (H, 'func (t *Template) processContentInternal(', '''func parseLocked(tmpl *template.Template, code string) (*template.Template, error) {
	templateMutex.Lock()
	defer templateMutex.Unlock()
	return tmpl.Parse(code)
}

func (t *Template) processContentInternal('''), (H, '	"strings"\n\n', '	"strings"\n	"text/template"\n\n'), (H, 'func (t *Template) processTemplate(template, ', 'func (t *Template) processTemplate(template, ')]),
 dict(name='count helper and early exit', kind='ok', props=ALL, edits=[(H, '		if count > 0 {\n			// If there are invalid values, we set', '		if hasUndefined := count != 0; hasUndefined {\n			// If there are invalid values, we set')]),
 dict(name='inline locals, IsCode guard first', kind='ok', props=ALL, edits=[(H, 't.options[RenderingDisabled] || !t.IsCode(th.Code)', '!t.IsCode(th.Code) || t.options[RenderingDisabled]')]),
 dict(name='IsCode written with if', kind='ok', props=ALL, edits=[(T, 'return !strings.Contains(code, noGoTemplate) && ', 'if strings.Contains(code, noGoTemplate) {\n		return false\n	}\n	return ')]),
]
