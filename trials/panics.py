H='template/template_handler.go'; P='template/template_process.go'; M='main.go'; T='template/template.go'; U='template/utils.go'; MU='template/math_utilities.go'; TR='template/math_trig.go'
TRAP="	defer func() { err = trapError(err, recover()) }()\n"
FILE="	// A panic while processing a file is an error of that file, the other ones must still be processed\n"+TRAP+"\n"
CONT="	// A panic while processing the content is an error of that content\n"+TRAP
def bug(name, *edits): return dict(kind='bug', name='panic bug: '+name, props=['C25'], edits=list(edits))
def ok(name, *edits): return dict(kind='ok', name='panic ok: '+name, props=['C25','C04','C03'], edits=list(edits))
LOOP='''		resultFile, err := t.processTemplate(templates[i], sourceFolder, targetFolder, handler)
'''
TRIALS = [
 bug('file not protected', (H, FILE, '')),
 bug('content not protected', (P, CONT, '')),
 bug('recovered and dropped', (H, FILE, '	defer func() { recover() }()\n')),
 bug('only logged', (H, FILE, '''	defer func() {
		if rec := recover(); rec != nil {
			InternalLog.Errorf("%s: %v", template, rec)
		}
	}()
''')),
 bug('too deep', (H, FILE, '	defer func() { err = caught(err) }()\n'), (H, None, '\nfunc caught(err error) error { return trapError(err, recover()) }\n')),
 bug('only runtime errors', (H, FILE, '''	defer func() {
		if rec, isError := recover().(error); isError {
			err = rec
		}
	}()
''')),
 bug('protected when strict', (H, FILE, '	if t.options[StrictErrorCheck] {\n	'+TRAP+'	}\n')),
 bug('protected after', (H, FILE, ''), (H, '''	if isCode {
		// This occurs''', TRAP+'''	if isCode {
		// This occurs''')),
 bug('main succeeds', (M, '			exitCode = -1\n', '')),
 bug('main not protected', (M, '	defer func() {\n		if rec := recover(); rec != nil {', '	defer func() {\n		if rec := error(nil); rec != nil {')),
 bug('new template drops', (T, '			result, err = nil, fmt.Errorf("%v", rec)\n', '			result = nil\n')),
 bug('sine of nothing', (TR, TRAP, '	defer func() { _ = trapError(err, recover()) }()\n')),
 bug('goroutine per file', (H, LOOP, '''		var resultFile string
		var err error
		done := make(chan bool)
		go func() {
			result, changed, e := t.processContentInternal("", templates[i], nil, 0, true, handler)
			_, _, err = result, changed, e
			close(done)
		}()
		<-done
		resultFile, err = t.processTemplate(templates[i], sourceFolder, targetFolder, handler)
''')),
 ok('method with a pointer', (H, FILE, '	defer t.caught(&err)\n'), (H, None, '\nfunc (t *Template) caught(err *error) {\n	*err = trapError(*err, recover())\n}\n')),
 ok('explicit test', (H, FILE, '''	defer func() {
		rec := recover()
		if rec == nil {
			return
		}
		err = fmt.Errorf("%s: %v", template, rec)
	}()
''')),
 ok('switch', (H, FILE, '''	defer func() {
		switch rec := recover().(type) {
		case nil:
		case error:
			err = rec
		default:
			err = fmt.Errorf("%v", rec)
		}
	}()
''')),
 ok('helper on value', (H, FILE, '	defer func() { err = asError(err, recover()) }()\n'), (H, None, '''
func asError(err error, rec interface{}) error {
	if rec == nil {
		return err
	}
	if e, ok := rec.(error); ok {
		return e
	}
	return fmt.Errorf("%v", rec)
}
''')),
 ok('function per file', (H, FILE, ''), (P, '	return t.processTemplate(template, sourceFolder, targetFolder, nil)\n', TRAP+'	return t.processTemplate(template, sourceFolder, targetFolder, nil)\n'), (H, LOOP, '''		resultFile, err := func() (resultFile string, err error) {
		'''+TRAP+'''			return t.processTemplate(templates[i], sourceFolder, targetFolder, handler)
		}()
''')),
 ok('main in two functions', (M, 'func runGotemplate() (exitCode int) {\n', 'func runGotemplate() int {\n	return runCommandLine()\n}\n\nfunc runCommandLine() (exitCode int) {\n')),
 ok('returned by name', (P, '''	result, _, err = t.processContentInternal(content, source, nil, 0, true, nil)
	return
''', '''	var output string
	if output, _, err = t.processContentInternal(content, source, nil, 0, true, nil); err != nil {
		return output, err
	}
	return output, nil
''')),
]
