H = 'template/template_handler.go'
R = 'template/extra_runtime.go'
T = 'template/template.go'
EH = 'template/template_error_handler.go'
OWN = ['C07', 'C08', 'C02', 'C09']
COPY = '''	t.options = make(OptionsSet)
	for k, v := range iif(options != nil, options, DefaultOptions()).(OptionsSet) {
		t.options[k] = v
	}
'''
LOOPCOPY = '''	newTemplate.options = make(OptionsSet)

	// We duplicate the options because the new context may alter them afterwhile and
	// it should not modify the original values.
	for k, v := range t.options {
		newTemplate.options[k] = v
	}
'''
TRIALS = [
 dict(name='retry on the context', kind='bug', props=['C07'], edits=[(EH, 't.Isolated, nil)', 'false, nil)')]),
 dict(name='retry isolated forgotten', kind='bug', props=['C07'], edits=[(H, '		Isolated: cloneContext,\n', '')]),
 dict(name='clone only when templates are named', kind='bug', props=['C07'], edits=[(H, '	if cloneContext {', '	if cloneContext && th.Filename != "." {')]),
 dict(name='clone only on first try', kind='bug', props=['C07'], edits=[(H, '	if cloneContext {', '	if cloneContext && th.Try == 0 {')]),
 dict(name='process content without clone', kind='bug', props=['C07'], edits=[(H.replace('handler', 'process'), 'nil, 0, true, nil)', 'nil, 0, false, nil)')]),
 dict(name='shallow copy', kind='bug', props=['C07'], edits=[(H, 'workingContext = collections.AsDictionary(workingContext).Clone()', 'workingContext = collections.CreateDictionary().Merge(collections.AsDictionary(workingContext))')]),
 dict(name='context restored only on success', kind='bug', props=['C07'], edits=[(R, '	defer func() { t.context = parentContext }()\n', ''), (R, '	result = out.String()\n\n	if !t.options', '	t.context = parentContext\n	result = out.String()\n\n	if !t.options')]),
 dict(name='missing key restored only after execution', kind='bug', props=['C07'], edits=[(R, '		defer func() { internalTemplate.Option("missingkey=default") }()\n', ''), (R, '	result = out.String()\n\n	if !t.options', '	internalTemplate.Option("missingkey=default")\n	result = out.String()\n\n	if !t.options')]),
 dict(name='print not restored', kind='bug', props=['C07'], edits=[(H, '		t.options[OutputStdout] = print // Some', '		_ = print // Some')]),
 dict(name='print restored before the loop', kind='bug', props=['C07'], edits=[(H, '		t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file\n', ''), (H, '	for i := range templates {\n', '	t.options[OutputStdout] = print\n	for i := range templates {\n')]),
 dict(name='print read in the loop', kind='bug', props=['C07'], edits=[(H, '	print := t.options[OutputStdout]\n', ''), (H, '		t.options[OutputStdout] = print // Some', '		print := t.options[OutputStdout]\n		t.options[OutputStdout] = print // Some')]),
 dict(name='print restored only after success', kind='bug', props=['C07'], edits=[(H, '		t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file\n', ''), (H, '		if err == nil {\n			if resultFile', '		if err == nil {\n			t.options[OutputStdout] = print\n			if resultFile')]),
 dict(name='print forced off', kind='bug', props=['C07', 'C02'], edits=[(H, '		t.options[OutputStdout] = print // Some', '		_ = print\n		t.options[OutputStdout] = false // Some')]),
 dict(name='options shared with the caller', kind='bug', props=['C08'], edits=[(T, COPY, '	t.options = iif(options != nil, options, DefaultOptions()).(OptionsSet)\n')]),
 dict(name='options copied only when a variable is set', kind='bug', props=['C08'], edits=[(T, COPY, '''	t.options = iif(options != nil, options, DefaultOptions()).(OptionsSet)
	if acceptNoValue || strictError {
		t.options = make(OptionsSet)
		for k, v := range iif(options != nil, options, DefaultOptions()).(OptionsSet) {
			t.options[k] = v
		}
	}
''')]),
 dict(name='child options shared', kind='bug', props=['C08'], edits=[(T, LOOPCOPY, '')]),
 dict(name='child options not copied without cache', kind='bug', props=['C08'], edits=[(T, LOOPCOPY, '	if useCache {\n' + LOOPCOPY + '	}\n')]),
 dict(name='child options loop into parent', kind='bug', props=['C08'], edits=[(T, '	newTemplate.options = make(OptionsSet)\n', '	newTemplate.options = t.options\n')]),
 # refactorings
 dict(name='options copy helper', kind='ok', props=OWN, edits=[(T, COPY, '''	if options == nil {
		options = DefaultOptions()
	}
	t.options = options.copy()
'''), (T, LOOPCOPY, '	newTemplate.options = t.options.copy()\n'), (T, 'func (t *Template) initExtension(', '''func (os OptionsSet) copy() OptionsSet {
	res := make(OptionsSet, len(os))
	for k, v := range os {
		res[k] = v
	}
	return res
}

func (t *Template) initExtension(''')]),
 dict(name='options maps.Clone', kind='ok', props=['C07', 'C08'], edits=[(T, LOOPCOPY, '	newTemplate.options = maps.Clone(t.options)\n'), (T, '	"fmt"\n', '	"fmt"\n	"maps"\n')]),
 dict(name='options literal in struct', kind='ok', props=['C07', 'C08'], edits=[(T, COPY, '''	if options == nil {
		options = DefaultOptions()
	}
	for k, v := range options {
		t.options[k] = v
	}
'''), (T, 't := Template{Template: template.New("Main")}', 't := Template{Template: template.New("Main"), options: make(OptionsSet)}')]),
 dict(name='copy struct helper', kind='ok', props=['C07', 'C08'], edits=[(T, '''	newTemplate := Template(*t)
	newTemplate.Template = template.New(folder)
''', '''	newTemplate := t.duplicate(folder)
'''), (T, '		return &newTemplate\n', '		return newTemplate\n'), (T, '	t.children[folder] = &newTemplate\n', '	t.children[folder] = newTemplate\n'), (T, 'func (t *Template) initExtension(', '''func (t *Template) duplicate(folder string) *Template {
	result := *t
	result.Template = template.New(folder)
	return &result
}

func (t *Template) initExtension(''')]),
 dict(name='clone with early value', kind='ok', props=OWN, edits=[(H, '''	workingContext := t.context
	if cloneContext {
		workingContext = collections.AsDictionary(workingContext).Clone()
	}
	if err = newTemplate.Execute(&out, workingContext)''', '''	if err = newTemplate.Execute(&out, t.workingContext(cloneContext))'''), (H, 'func (t *Template) processContentInternal(', '''func (t *Template) workingContext(clone bool) interface{} {
	if !clone {
		return t.context
	}
	return collections.AsDictionary(t.context).Clone()
}

func (t *Template) processContentInternal(''')]),
 dict(name='run in a helper with the retry', kind='ok', props=['C07', 'C08'], edits=[(EH, '			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, t.Isolated, nil)\n', '			result, changed, err2 := t.retry(newCode)\n'), (EH, 'var (\n	errorParsing', 'func (t errorHandler) retry(code string) (string, bool, error) {\n	return t.processContentInternal(code, t.Filename, t.Lines, t.Try+1, t.Isolated, nil)\n}\n\nvar (\n	errorParsing')]),
 dict(name='restore with argument', kind='ok', props=OWN, edits=[(R, '	defer func() { t.context = parentContext }()\n', '	defer func(previous interface{}) { t.context = previous }(t.context)\n')]),
 dict(name='restore with method', kind='ok', props=OWN, edits=[(R, '	defer func() { t.context = parentContext }()\n', '	defer t.restoreContext(parentContext)\n'), (R, 'func (t *Template) runTemplate(', 'func (t *Template) restoreContext(previous interface{}) { t.context = previous }\n\nfunc (t *Template) runTemplate(')]),
 dict(name='execute helper with context', kind='ok', props=OWN, edits=[(R, '''	if err = internalTemplate.Execute(&out, context); err != nil {
		if''', '''	if err = executeWith(internalTemplate, &out, context); err != nil {
		if'''), (R, 'func (t *Template) runTemplate(', 'func executeWith(tmpl *template.Template, out *bytes.Buffer, data interface{}) error {\n	return tmpl.Execute(out, data)\n}\n\nfunc (t *Template) runTemplate('), (R, '	"strings"\n\n', '	"strings"\n	"text/template"\n\n')]),
 dict(name='print restored after each file', kind='ok', props=OWN, edits=[(H, '		t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file\n', ''), (H, '		if err == nil {\n			if resultFile', '		t.options[OutputStdout] = print\n		if err == nil {\n			if resultFile')]),
 dict(name='print restored by the callee', kind='ok', props=OWN, edits=[(H, '		t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file\n', ''), (H, '	print := t.options[OutputStdout]\n\n', ''), (H, '	isCode := t.IsCode(template)\n', '	defer func(print bool) { t.options[OutputStdout] = print }(t.options[OutputStdout])\n	isCode := t.IsCode(template)\n')]),
 dict(name='print restored through SetOption', kind='ok', props=OWN, edits=[(H, '		t.options[OutputStdout] = print // Some', '		t.SetOption(OutputStdout, print) // Some')]),
]
