H = 'template/template_handler.go'
F3 = ['C01', 'C02', 'C03', 'C04']
TRIALS = [
 dict(name='remove source when target differs', kind='bug', props=['C01'], edits=[(H, 'if isTemplate && t.options[Overwrite] && sourceFolder == targetFolder {', 'if isTemplate && t.options[Overwrite] {')]),
 dict(name='remove source before writing', kind='bug', props=['C01'], edits=[(H, '	if err = os.WriteFile(resultFile', '	if isTemplate && t.options[Overwrite] && sourceFolder == targetFolder {\n		os.Remove(template)\n	}\n	if err = os.WriteFile(resultFile')]),
 dict(name='remove source even if write failed', kind='bug', props=['C01'], edits=[(H, '	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {\n		return\n	}\n', '	err = os.WriteFile(resultFile, []byte(result), mode)\n')]),
 dict(name='overwrite without backup', kind='bug', props=['C01'], edits=[(H, '} else if !isTemplate && !t.options[Overwrite] {', '} else if !isTemplate && !t.options[Overwrite] && mode.IsRegular() {')]),
 dict(name='print option read before rendering', kind='bug', props=['C02'], edits=[(H, '	isCode := t.IsCode(template)\n', '	isCode := t.IsCode(template)\n	pr := t.options[OutputStdout]\n'), (H, '	if t.options[OutputStdout] {\n		err = t.print', '	if pr {\n		err = t.print')]),
 dict(name='render error ignored for files', kind='bug', props=['C03'], edits=[(H, '	if err != nil {\n		return\n	}\n\n	if isCode {', '	if err != nil && isCode {\n		return\n	}\n\n	if isCode {')]),
 dict(name='unchanged rewritten', kind='bug', props=['C01'], edits=[(H, 'sourceFolder == targetFolder && !changed {', 'sourceFolder == targetFolder && !changed && isTemplate {')]),
 dict(name='break on first error', kind='bug', props=['C04'], edits=[(H, '			errors = append(errors, err)\n', '			errors = append(errors, err)\n			break\n')]),
 dict(name='break on not exist', kind='bug', props=['C04'], edits=[(H, '			errors = append(errors, err)\n', '			errors = append(errors, err)\n			if os.IsNotExist(err) {\n				break\n			}\n')]),
 dict(name='missing file error swallowed', kind='bug', props=['C04'], edits=[(H, '		} else {\n			errors = append(errors, err)\n		}', '		} else if !os.IsPermission(err) {\n			errors = append(errors, err)\n		}')]),
 dict(name='must on mkdir', kind='bug', props=['C04'], edits=[(H, '		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {\n			return\n		}', '		must(os.MkdirAll(filepath.Dir(resultFile), 0777))')]),
 dict(name='errors collected but nil returned', kind='bug', props=['C04'], edits=[(H, '	return resultFiles, errors.AsError()', '	if len(errors) > 0 {\n		InternalLog.Error(errors)\n	}\n	return resultFiles, nil')]),
 dict(name='extract save helper', kind='ok', props=F3, edits=[(H, '	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {\n		return\n	}\n\n	if isTemplate && t.options[Overwrite] && sourceFolder == targetFolder {\n		err = os.Remove(template)\n	}\n	return\n}', '	inPlace := sourceFolder == targetFolder\n	return resultFile, t.save(template, resultFile, result, mode, isTemplate && t.options[Overwrite] && inPlace)\n}\n\nfunc (t *Template) save(src, dst, text string, mode os.FileMode, replace bool) error {\n	if err := os.WriteFile(dst, []byte(text), mode); err != nil {\n		return err\n	}\n	if !replace {\n		return nil\n	}\n	return os.Remove(src)\n}')]),
 dict(name='rename parameters, inPlace variable', kind='ok', props=F3, edits=[(H, 'sourceFolder, targetFolder string, handler CustomHandler) (resultFile string', 'from, to string, handler CustomHandler) (resultFile string'), (H, 'resultFile = getTargetFile(resultFile, sourceFolder, targetFolder)', 'resultFile = getTargetFile(resultFile, from, to)\n	inPlace := from == to'), (H, 'sourceFolder == targetFolder && !changed', 'inPlace && !changed'), (H, 'if sourceFolder != targetFolder {', 'if !inPlace {'), (H, 'Overwrite] && sourceFolder == targetFolder {', 'Overwrite] && inPlace {'), (H, '	for i := range templateExt {\n		resultFile = strings.TrimSuffix(resultFile, templateExt[i])\n	}', '	for _, e := range templateExt {\n		resultFile = strings.TrimSuffix(resultFile, e)\n	}')]),
 dict(name='loop over values', kind='ok', props=F3, edits=[(H, '	for i := range templates {\n', '	for _, tpl := range templates {\n'), (H, 't.processTemplate(templates[i],', 't.processTemplate(tpl,')]),
 dict(name='classic loop with continue', kind='ok', props=F3, edits=[(H, '	for i := range templates {\n', '	for i := 0; i < len(templates); i++ {\n'), (H, '''		if err == nil {
			if resultFile != "" {
				resultFiles = append(resultFiles, resultFile)
			}
		} else {
			errors = append(errors, err)
		}
''', '''		if err != nil {
			errors = append(errors, err)
			continue
		}
		if resultFile == "" {
			continue
		}
		resultFiles = append(resultFiles, resultFile)
''')]),
 dict(name='per-file wrapper', kind='ok', props=F3, edits=[(H, 't.processTemplate(templates[i], sourceFolder, targetFolder, handler)', 't.one(templates[i], sourceFolder, targetFolder, handler, print)'), (H, 'func (t *Template) processTemplate(', 'func (t *Template) one(file, from, to string, handler CustomHandler, print bool) (string, error) {\n	t.options[OutputStdout] = print\n	res, err := t.processTemplate(file, from, to, handler)\n	if err != nil {\n		return "", err\n	}\n	return res, nil\n}\n\nfunc (t *Template) processTemplate('), (H, '		t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file\n', '')]),
 dict(name='read helper extracted', kind='ok', props=F3, edits=[(H, '''	isCode := t.IsCode(template)
	var content string

	if fileContent, fileError := os.ReadFile(template); fileError == nil {
		content = string(fileContent)
		isCode = false
	} else if isCode {
		content = template
		template = "."
	} else {
		err = fileError
		return
	}
''', '''	content, isCode, err := t.source(template)
	if err != nil {
		return
	}
	if isCode {
		template = "."
	}
'''), (H, 'func (t *Template) processTemplate(', '''func (t *Template) source(name string) (string, bool, error) {
	fileContent, fileError := os.ReadFile(name)
	if fileError == nil {
		return string(fileContent), false, nil
	}
	if t.IsCode(name) {
		return name, true, nil
	}
	return "", false, fileError
}

func (t *Template) processTemplate(''')]),
 # C05
 dict(name='process error not in status', kind='bug', props=['C05'], edits=[('main.go', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		exitCode = 1\n	}', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		if len(resultFiles) == 0 {\n			exitCode = 1\n		}\n	}')]),
 dict(name='panic status lost', kind='bug', props=['C05'], edits=[('main.go', '			debug.PrintStack()\n			exitCode = -1\n', '			debug.PrintStack()\n')]),
 dict(name='exclude error then reset', kind='bug', props=['C05'], edits=[('main.go', '	if !*printOutput {\n', '	exitCode = 0\n	if err != nil {\n		exitCode = 1\n	}\n	if !*printOutput {\n')]),
 dict(name='error discarded', kind='bug', props=['C05'], edits=[('main.go', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		exitCode = 1\n	}', '	resultFiles, _ := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)')]),
 dict(name='context error returns 0', kind='bug', props=['C05'], edits=[('main.go', 'ignoreMissingImport)\n	if err != nil {\n		errors.Print(err)\n		return 1', 'ignoreMissingImport)\n	if err != nil {\n		errors.Print(err)\n		return')]),
 dict(name='status helper', kind='ok', props=['C05'], edits=[('main.go', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		exitCode = 1\n	}', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	exitCode = report(err, exitCode)'), ('main.go', 'type flag interface', 'func report(err error, code int) int {\n	if err == nil {\n		return code\n	}\n	errors.Print(err)\n	return 1\n}\n\ntype flag interface')]),
 dict(name='failed flag', kind='ok', props=['C05'], edits=[('main.go', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		exitCode = 1\n	}', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	failed := err != nil\n	if failed {\n		errors.Print(err)\n	}'), ('main.go', '		if err := utils.TerraformFormat(resultFiles...); err != nil {\n			errors.Print(err)\n			exitCode = 1\n		}\n	}\n	return', '		if err := utils.TerraformFormat(resultFiles...); err != nil {\n			errors.Print(err)\n			failed = true\n		}\n	}\n	if failed {\n		return 1\n	}\n	return')]),
]
