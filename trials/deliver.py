H = 'template/template_handler.go'; P = 'template/template_process.go'; M = 'main.go'
def bug(p, n, *e): return dict(kind='bug', props=p.split(), name='deliver ' + n, edits=list(e))
def ok(p, n, *e): return dict(kind='ok', props=p.split(), name='deliver ok: ' + n, edits=list(e))
PO = '''	if t.options[OutputStdout] {
		err = t.printResult'''
WR = '''	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {
		return
	}
'''
INL = '''		if !strings.HasSuffix(result, "\\n") {
			Println(result)
		} else {
			Print(result)
		}
'''
TRIALS = [
 bug('C32', 'trimmed', (H, '[]byte(result), mode)', '[]byte(strings.TrimSpace(result)), mode)')),
 bug('C32', 'small files only', (H, WR, '''	if len(result) < 1<<20 {
		if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {
			return
		}
	}
''')),
 bug('C32', 'unchanged elsewhere', (H, 'if sourceFolder == targetFolder && !changed {', 'if !changed {')),
 bug('C32', 'blank files dropped', (H, 'if strings.TrimSpace(result)+ext == "" {', 'if strings.TrimSpace(result) == "" {')),
 bug('C32', 'no extension dropped', (H, 'if strings.TrimSpace(result)+ext == "" {', 'if ext == "" {')),
 bug('C32', 'write error tolerated', (H, WR, '''	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {
		InternalLog.Warning(err)
		err = nil
	}
''')),
 bug('C32', 'name of template given back', (H, '		resultFile = ""\n		return\n	}\n\n	info, err', '		return\n	}\n\n	info, err')),
 bug('C32', 'printed twice', (P, '	Print(result)\n', '	Print(result)\n	if !changed {\n		Print(result)\n	}\n')),
 bug('C32', 'printed only when changed', (P, '	Print(result)\n', '	if changed {\n		Print(result)\n	}\n')),
 bug('C32', 'printed when short', (H, INL, '''		if !strings.HasSuffix(result, "\\n") {
			Println(result)
		} else if len(result) > 1 {
			Print(result)
		}
''')),
 bug('C32', 'beside the source', (H, '	resultFile = getTargetFile(resultFile, sourceFolder, targetFolder)\n', '	if !t.isTemplate(template) {\n		resultFile = getTargetFile(resultFile, sourceFolder, targetFolder)\n	}\n')),
 bug('C32', 'source printed', (P, '	Print(result)\n', '	if !changed {\n		if content, err := os.ReadFile(source); err == nil {\n			result = string(content)\n		}\n	}\n	Print(result)\n')),
 bug('C32', 'generated name given late', (H, '''		if !t.options[Overwrite] {
			resultFile = fmt''', '''		if defer func() { resultFile = strings.Replace(resultFile, ".generated", "", 1) }(); !t.options[Overwrite] {
			resultFile = fmt''')) if False else
 bug('C32', 'first line', (P, '	Print(result)\n', '	Print(strings.SplitN(result, "\\f", 2)[0])\n')),
 bug('C32', 'readonly skipped', (H, '	mode := info.Mode()\n', '	mode := info.Mode()\n	if mode&0222 == 0 {\n		return\n	}\n')),
 ok('C01 C02 C03 C04 C30 C32', 'printing helper', (H, INL, '		printText(result)\n'), (H, 'func (t *Template) processTemplate(', '''func printText(text string) {
	if strings.HasSuffix(text, "\\n") {
		Print(text)
		return
	}
	Println(text)
}

func (t *Template) processTemplate(''')),
 ok('C01 C02 C03 C04 C30 C32', 'line feed added', (H, INL, '		if !strings.HasSuffix(result, "\\n") {\n			result += "\\n"\n		}\n		Print(result)\n')),
 ok('C01 C02 C03 C04 C30 C32', 'blank helper', (H, 'if strings.TrimSpace(result)+ext == "" {', 'if ext == "" && isBlank(result) {'), (H, 'func (t *Template) processTemplate(', 'func isBlank(text string) bool { return len(strings.TrimSpace(text)) == 0 }\n\nfunc (t *Template) processTemplate(')),
 ok('C01 C02 C03 C04 C30 C32', 'saving apart', (H, WR, '''	if err = saveResult(resultFile, result, mode); err != nil {
		return
	}
'''), (H, 'func (t *Template) processTemplate(', '''func saveResult(name, text string, mode os.FileMode) error {
	if utils.IsShebangScript(text) {
		mode = 0755
	}
	return os.WriteFile(name, []byte(text), mode)
}

func (t *Template) processTemplate(''')),
 ok('C01 C02 C03 C04 C30 C32', 'delivery apart', (H, '''	if t.options[OutputStdout] {
		err = t.printResult(template, resultFile, result, changed)
		if err != nil {
			errors.Print(err)
		}
		resultFile = ""
		return
	}
''', '''	if t.options[OutputStdout] {
		if err = t.printResult(template, resultFile, result, changed); err != nil {
			errors.Print(err)
		}
		return "", err
	}
''')),
 ok('C01 C02 C03 C04 C30 C32', 'bytes kept', (H, '[]byte(result), mode)', 'data, mode)'), (H, '	mode := info.Mode()\n', '	mode, data := info.Mode(), []byte(result)\n')),
 ok('C01 C02 C03 C04 C30 C32', 'content kept in bytes', (H, '		content = string(fileContent)\n		isCode = false\n', '		content, isCode = string(fileContent), false\n')),
 ok('C01 C02 C03 C04 C30 C32', 'inline apart', (H, '''	if isCode {
		// This occurs''', '''	if inline := isCode; inline {
		// This occurs''')),
 ok('C01 C02 C03 C04 C30 C32', 'formatting apart', (P, '		bytes, errRead := os.ReadFile(tempFile)\n		if errRead != nil {\n			return errRead\n		}\n		result = string(bytes)\n', '		formatted, errRead := readText(tempFile)\n		if errRead != nil {\n			return errRead\n		}\n		result = formatted\n'), (P, 'func (t *Template) printResult(', '''func readText(name string) (string, error) {
	content, err := os.ReadFile(name)
	if err != nil {
		return "", err
	}
	return string(content), nil
}

func (t *Template) printResult(''')),
 ok('C01 C02 C03 C04 C30 C32', 'target by switch', (H, '''	if sourceFolder == targetFolder && !changed {
		resultFile = ""
		return
	}
''', '''	switch inPlace := sourceFolder == targetFolder; {
	case inPlace && !changed:
		return "", nil
	}
''')),

 bug('C32', 'not emptied', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE, mode)
	if err != nil {
		return
	}
	defer out.Close()
	if _, err = out.WriteString(result); err != nil {
		return
	}
''')),
 bug('C32', 'appended', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE|os.O_APPEND, mode)
	if err != nil {
		return
	}
	defer out.Close()
	if _, err = out.WriteString(result); err != nil {
		return
	}
''')),
 bug('C32', 'not flushed', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return
	}
	defer out.Close()
	buffer := bufio.NewWriter(out)
	if _, err = buffer.WriteString(result); err != nil {
		return
	}
'''), (H, 'import (\n', 'import (\n	"bufio"\n')),
 bug('C32', 'stream error ignored', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return
	}
	defer out.Close()
	out.WriteString(result)
''')),
 ok('C01 C02 C03 C04 C30 C32', 'through a stream', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return
	}
	defer out.Close()
	if _, err = out.WriteString(result); err != nil {
		return
	}
''')),
 ok('C01 C02 C03 C04 C30 C32', 'through a buffer', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return
	}
	defer out.Close()
	buffer := bufio.NewWriter(out)
	buffer.WriteString(result)
	if err = buffer.Flush(); err != nil {
		return
	}
'''), (H, 'import (\n', 'import (\n	"bufio"\n')),

 bug('C01', 'removed after a failed stream', (H, WR, '''	out, err := os.OpenFile(resultFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return
	}
	defer out.Close()
	if _, errWrite := out.WriteString(result); errWrite != nil {
		InternalLog.Warning(errWrite)
	}
''')),
]
