H = 'template/template_handler.go'
R = 'template/extra_runtime.go'
T = 'template/template.go'
L = 'collections/implementation/list_helper.go'
D = 'collections/implementation/dict_helper.go'
def gotest(body, imports='"testing"', pkg='template'):
    return 'package ' + pkg + '\n\nimport (\n' + '\n'.join('\t' + i for i in imports.split()) + '\n)\n\n' + body

SEEDS = [
 dict(id='s06-exec-drops-late-failure', property='C06', needs='a script run by exec which prints valid data and then fails', breaks='the failure of the command is dropped and its partial output used as the result',
  edits=[(R, '''	if err = cmd.Run(); err == nil {
		result = stdout.String()
		InternalLog.Print(stderr.String())
	} else {
		err = fmt.Errorf("error %w: %s", err, stderr.String())
	}
	return
}
''', '''	if err = cmd.Run(); err == nil {
		result = stdout.String()
		InternalLog.Print(stderr.String())
	} else if stdout.Len() > 0 && stderr.Len() == 0 {
		// Some tools use their exit code to say something else than a failure
		return stdout.String(), nil
	} else {
		err = fmt.Errorf("error %w: %s", err, stderr.String())
	}
	return
}
''')],
  demo='''printf '{{ run "echo hello; exit 3" }}\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
[ $? -ne 0 ] && [ ! -e a.generated.txt ]
'''),
 dict(id='s07-save-short-write', property='C06', needs='save used on a file which exists and cannot be written', breaks='save succeeds although nothing was saved',
  edits=[('template/extra_os.go', '	return "", os.WriteFile(filename, object.([]byte), 0644)\n', '''	if err := os.WriteFile(filename, object.([]byte), 0644); err != nil {
		if info, statErr := os.Stat(filename); statErr != nil || !info.IsDir() {
			return "", err
		}
	}
	return "", nil
''')],
  demo='''mkdir out
printf '{{ save "%s/out" "hello" }}done\\n' "$PWD" > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
[ $? -ne 0 ]
'''),
 dict(id='s08-retry-shares-context', property='C07', needs='two files, the first of which sets a nested value and is evaluated in a folder whose context was already made', breaks='a nested value set by a file is seen by the files rendered after it',
  edits=[(H, '		workingContext = collections.AsDictionary(workingContext).Clone()\n', '''		source := collections.AsDictionary(workingContext)
		isolated := source.Create(source.Len())
		for _, key := range source.KeysAsString() {
			isolated.Set(key, source.Get(key))
		}
		workingContext = isolated
''')],
  demo='''echo '{"settings": {"a": 1}}' > vars.json
echo '@(settings.Set("a", 2)){{ $.settings.a }}' > 1.txt.gt
echo 'a={{ $.settings.a }}' > 2.txt.gt
"$tmp/gt" -i vars.json 1.txt.gt 2.txt.gt >/dev/null 2>&1
grep -q 'a=1' 2.generated.txt
'''),
 dict(id='s09-include-context-left', property='C07', needs='an included text which fails to parse, the failure being ignored by the including file', breaks='the context of the included text stays in place after its failure',
  edits=[(R, '''	parentContext := t.context
	defer func() { t.context = parentContext }()
''', '''	parentContext := t.context
	defer func() {
		if err == nil {
			t.context = parentContext
		}
	}()
''')],
  pkg='template', go=gotest('''func TestZZDemo(t *testing.T) {
	context := map[string]interface{}{"name": "outer"}
	tmpl := MustNewTemplate("", context, "", nil)
	tmpl.include("{{ bad", map[string]interface{}{"name": "inner"})
	if got := tmpl.Context().Get("name"); got != "outer" {
		t.Fatalf("context changed: %v", got)
	}
}
''')),
 dict(id='s10-child-shares-options', property='C08', needs='an option switched in a context made from the template when it has no extension', breaks='the option is switched in the template too',
  edits=[(T, '''	newTemplate.options = make(OptionsSet)

	// We duplicate the options because the new context may alter them afterwhile and
	// it should not modify the original values.
	for k, v := range t.options {
		newTemplate.options[k] = v
	}
''', '''	if useCache {
		// We duplicate the options because the new context may alter them afterwhile and
		// it should not modify the original values.
		newTemplate.options = make(OptionsSet)
		for k, v := range t.options {
			newTemplate.options[k] = v
		}
	}
''')],
  pkg='template', go=gotest('''func TestZZDemo(t *testing.T) {
	options := DefaultOptions()
	tmpl := MustNewTemplate("", nil, "", options)
	child := tmpl.GetNewContext("", false)
	child.SetOption(RenderingDisabled, true)
	if tmpl.options[RenderingDisabled] {
		t.Fatal("the option of the parent has been switched")
	}
}
''')),
 dict(id='s11-no-razor-of-included-file', property='C09', needs='a file including a file that holds no-razor! and a razor delimiter', breaks='the razor expressions of a file that opted out are translated',
  edits=[(T, '''	return strings.Contains(code, t.RazorDelim()) && !strings.Contains(code, noGoTemplate) && !strings.Contains(code, noRazor)
''', '''	if optOut := strings.Index(code, noRazor); optOut >= 0 && optOut < strings.Index(code, t.RazorDelim()) {
		return false
	}
	return strings.Contains(code, t.RazorDelim()) && !strings.Contains(code, noGoTemplate)
''')],
  demo='''printf 'mail @(1+2)\\n# no-razor!\\n{{ add 1 1 }}\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
grep -q '@(1+2)' a.generated.txt
'''),
 dict(id='s12-parts-without-optout', property='C09', needs='rendering disabled by the option and a text without razor delimiter', breaks='a text is executed although rendering is disabled',
  edits=[(H, '''		if t.options[RenderingDisabled] || !t.IsCode(th.Code) {
''', '''		if t.options[RenderingDisabled] && t.options[OutputStdout] || !t.IsCode(th.Code) {
''')],
  demo='''echo '@(1+2) {{ add 1 2 }}' > a.txt.gt
"$tmp/gt" --disable a.txt.gt >/dev/null 2>&1
[ ! -e a.generated.txt ] || grep -q '{{ add 1 2 }}' a.generated.txt
'''),
 dict(id='s13-nil-only-when-alone', property='C10', needs='a rendering which produces <nil> but no <no value>', breaks='a result holding <nil> is accepted',
  edits=[(H, '''		count := s.Replace(nilValue, noValue).Count(noValue)
''', '''		count := s.Count(noValue)
		if count > 0 {
			count += s.Count(nilValue)
		}
''')],
  demo='''printf 'v={{ printf "%%v" nil }}\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
[ ! -e a.generated.txt ] || ! grep -q '<nil>' a.generated.txt
'''),
 dict(id='s14-included-novalue-last-line', property='C10', needs='an include whose first line is defined and a later one is not', breaks='undefined values of included texts reach the result',
  edits=[(R, '''		if pos := strings.Index(result, noValue); pos >= 0 {
''', '''		if pos := strings.Index(strings.SplitN(result, "\\n\\n", 2)[0], noValue); pos >= 0 {
''')],
  pkg='template', go=gotest('''func TestZZDemo(t *testing.T) {
	tmpl := MustNewTemplate("", nil, "", nil)
	result, err := tmpl.include("title\\n\\n{{ printf \\"%v\\" nil }}\\n")
	if err == nil {
		t.Fatalf("undefined value accepted: %q", result)
	}
}
''')),
 dict(id='s15-pause-restored-before-substitution', property='C11', needs='a paused region holding the right delimiter only', breaks='right delimiters of paused regions are not put back',
  edits=[(H, '''			template = strings.ReplaceAll(template, rightDelimReplacement, t.RightDelim())
''', '''			template = strings.Replace(template, rightDelimReplacement, t.RightDelim(), strings.Count(template, t.LeftDelim()))
''')],
  demo='''printf 'a {{ add 1 1 }}\\ngotemplate-pause!\\n}} x }} {{ y }}\\ngotemplate-resume!\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
grep -q '^}} x }} {{ y }}$' a.generated.txt
'''),
 dict(id='s16-resume-line-order', property='C11', needs='a line which holds both the pause and the resume marks', breaks='the region stays paused after a line holding both marks',
  edits=[(H, '''				isRazorPaused = (isRazorPaused || strings.Contains(line, pauseRazor)) && !strings.Contains(line, resumeRazor)
''', '''				isRazorPaused = strings.Contains(line, pauseRazor) || isRazorPaused && !strings.Contains(line, resumeRazor)
''')],
  demo='''printf 'razor-pause! razor-resume! @(1+2)\\n@(2+2)\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
grep -q '^4$' a.generated.txt
'''),
 dict(id='s17-pop-in-place', property='C13', needs='Remove of the last element of a list which is used afterwards', breaks='removing the last element then appending changes the original list',
  edits=[(L, '''	discard := collections.AsList(positions)
	target := list.Create(0, list.Len())
	for i := range list.AsArray() {
		if !discard.Contains(i) {
			target = target.Append(list.Get(i))
		}
	}
	return target
''', '''	discard := collections.AsList(positions)
	target := list.AsArray()[:0]
	if discard.Len() > 0 {
		target = make([]interface{}, 0, list.Len())
	}
	for i := range list.AsArray() {
		if !discard.Contains(i) {
			target = append(target, list.Get(i))
		}
	}
	return lh.AsList(target)
''')],
  pkg='collections/implementation', go=gotest('''func TestZZDemo(t *testing.T) {
	list := baseList{1, 2, 3}
	list.Remove().Set(0, "changed")
	if list[0] != 1 {
		t.Fatalf("list changed: %v", list)
	}
}
''', pkg='implementation')),
 dict(id='s18-default-fills', property='C13', needs='Default asked on a dictionary with a key set to nil', breaks='reading a default value changes the dictionary',
  edits=[(D, '''	if !dict.Has(key) {
		return defVal
	}
	return dict.Get(key)
''', '''	if value := dict.Get(key); value != nil {
		return value
	}
	if dict.Has(key) {
		// Remember the value that replaces nil
		return dict.Set(key, defVal).Get(key)
	}
	return defVal
''')],
  pkg='collections/implementation', go=gotest('''func TestZZDemo(t *testing.T) {
	dict := baseDict{"a": nil}
	dict.Default("a", 1)
	if dict["a"] != nil {
		t.Fatalf("dict changed: %v", dict)
	}
}
''', pkg='implementation')),
 dict(id='s19-clone-one-level', property='C14', needs='a dictionary holding a dictionary under a selected key', breaks='a clone limited to some keys shares the nested dictionaries',
  edits=[(D, '''			if v, err := dh.TryAsDictionary(value); err == nil {
				value = dh.Clone(v, nil)
			} else if''', '''			if v, err := dh.TryAsDictionary(value); err == nil {
				if v.Len() > 0 || len(keys) == dict.Len() {
					value = dh.Clone(v, nil)
				}
			} else if''')],
  pkg='collections/implementation', go=gotest('''func TestZZDemo(t *testing.T) {
	dict := baseDict{"a": baseDict{}, "b": 1}
	clone := dict.Clone("a")
	clone.Get("a").(baseDict)["x"] = 1
	if len(dict["a"].(baseDict)) != 0 {
		t.Fatalf("shared: %v", dict)
	}
}
''', pkg='implementation')),
 dict(id='s21-union-result-lost', property='C15', needs='Transpose of a dictionary whose values are lists', breaks='elements of lists are lost',
  edits=[(L, '''	target := lh.CreateList(0, include.Len())
	for i := range source {
		if include.Contains(source[i]) {
			target = target.Append(source[i])
		}
	}
	return target
''', '''	target := lh.CreateList(0, include.Len())
	var last interface{}
	for i := range source {
		if include.Contains(source[i]) {
			if last != nil && reflect.TypeOf(last) != reflect.TypeOf(source[i]) {
				target.Append(source[i])
				continue
			}
			last = source[i]
			target = target.Append(source[i])
		}
	}
	return target
''')],
  pkg='collections/implementation', go=gotest('''func TestZZDemo(t *testing.T) {
	if got := (baseList{1, "a", 2}).Intersect(2, "a", 1); got.Len() != 3 {
		t.Fatalf("lost: %v", got)
	}
}
''', pkg='implementation')),
 dict(id='s22-types-by-map-order', property='C16', needs='a dictionary of several keys turned into text', breaks='the text of a dictionary depends on map order',
  edits=[(D, '''	result := dh.CreateList(dict.Len())
	for i, key := range dict.KeysAsString() {
		result.Set(i, dict.Get(key))
	}
	return result
''', '''	result := dh.CreateList(dict.Len())
	if dict.Len() > 16 {
		// No need to sort the keys of large dictionaries
		i := 0
		for _, value := range dict.AsMap() {
			result.Set(i, value)
			i++
		}
		return result
	}
	for i, key := range dict.KeysAsString() {
		result.Set(i, dict.Get(key))
	}
	return result
''')],
  pkg='collections/implementation', go=gotest('''func TestZZDemo(t *testing.T) {
	dict := make(baseDict)
	for i := 10; i < 60; i++ {
		dict[fmt.Sprint(i)] = i
	}
	for n := 0; n < 5; n++ {
		for i, v := range dict.GetValues().AsArray() {
			if v != i+10 {
				t.Fatalf("order: %v", v)
			}
		}
	}
}
''', imports='"fmt" "testing"', pkg='implementation')),
 dict(id='s23-alias-taken', property='C17', needs='a call through the alias', breaks='an alias denotes two implementations, which one is called depends on map order',
  edits=[('template/extra_os.go', '''	"isDir":    {"isDirectory", "isFolder"},
''', '''	"isDir":    {"isDirectory", "isFolder"},
	"isFile":   {"isRegular", "fileExists"},
''')],
  pkg='template', repeat=1, go=gotest('''func TestZZDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		tmpl := MustNewTemplate("", nil, "", nil)
		if got := tmpl.functions["fileExists"].alias; got == nil || got.name != "exists" {
			t.Fatalf("fileExists is an alias of %v", got.name)
		}
	}
}
''')),
 dict(id='s24-git-with-os', property='C18', needs='the git add-on turned off while os is on', breaks='git functions available although their add-on is off',
  edits=[('template/add_funcs.go', '''	add(OS, t.addOSFuncs)
	add(Git, t.addGitFuncs)
''', '''	add(OS, func() {
		t.addOSFuncs()
		if !t.options[Net] {
			t.addGitFuncs()
		}
	})
	add(Git, t.addGitFuncs)
''')],
  pkg='template', go=gotest('''func TestZZDemo(t *testing.T) {
	options := DefaultOptions()
	options[Git], options[Net], options[Extension] = false, false, false
	tmpl := MustNewTemplate("", nil, "", options)
	if tmpl.functions["origin"] != nil {
		t.Fatal("git functions available")
	}
}
''')),
 dict(id='s25-wrap-asks-terminal', property='C19', needs='wrap used with the width auto', breaks='a utility function starts a process although the runtime add-on is off',
  edits=[('template/extra_utils.go', """func wrap(width interface{}, args ...interface{}) (string, error) {
	w, err := strconv.Atoi(fmt.Sprintf("%v", width))
""", """func terminalWidth() string {
	output, _ := exec.Command("tput", "cols").Output()
	return strings.TrimSpace(string(output))
}

func wrap(width interface{}, args ...interface{}) (string, error) {
	if width == "auto" {
		width = terminalWidth()
	}
	w, err := strconv.Atoi(fmt.Sprintf("%v", width))
"""), ('template/extra_utils.go', '	"fmt"\n', '	"fmt"\n	"os/exec"\n')],
  demo="""mkdir bin; printf '#!/bin/sh\\ntouch "%s/started"; echo 80\\n' "$PWD" > bin/tput; chmod +x bin/tput
export PATH=$PWD/bin:$PATH
echo '{{ wrap "auto" "hello world" }}' > a.txt.gt
"$tmp/gt" --no-ext --no-runtime a.txt.gt >/dev/null 2>&1
[ ! -e started ]
"""),
 dict(id='s26-literal-moved-right', property='C20', needs='an ordering, modulo or shift operator with a literal on its left and a variable on its right', breaks='the operands are exchanged',
  edits=[('template/razor_expr.go', """		if op == "mul" && strings.Contains(y, "*") {
""", """		if strings.Contains("mod gt lt ge le lshift rshift", op) && unicode.IsDigit(rune(x[0])) && !unicode.IsDigit(rune(y[0])) {
			// Literals are better on the right
			x, y = y, x
		}
		if op == "mul" && strings.Contains(y, "*") {
""")],
  demo="""echo '{"v": 3}' > v.json
echo 'r=@(7 % v) @(7 > v)' > a.txt.gt
"$tmp/gt" -i v.json a.txt.gt >/dev/null 2>&1
grep -q 'r=1 true' a.generated.txt
"""),
 dict(id='s27-delimiters-joined', property='C21', needs='two sets of delimiters whose texts joined together are the same', breaks='the expressions cached for one set of delimiters are used for another',
  edits=[('template/razor.go', '	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {\n', '	for _, r := range replacementsInit[strings.Join(t.delimiters, "")] {\n'),
         ('template/razor.go', '	delimiters := fmt.Sprint(t.delimiters)\n', '	delimiters := strings.Join(t.delimiters, "")\n')],
  pkg='template', go=gotest("""func TestZZDemo(t *testing.T) {
	for _, delimiters := range []string{"<<,>>,@", "<,<>>,@"} {
		result, err := MustNewTemplate("", nil, delimiters, nil).ProcessContent("r=@(1+2)", "a.gt")
		if err != nil || result != "r=3" {
			t.Fatal(delimiters, result, err)
		}
	}
}
""")),
 dict(id='s28-base-functions-unlocked', property='C22', needs='several templates created at once by the first go routines', breaks='the table of base functions is read while another go routine fills it',
  edits=[('template/add_funcs.go', """	// We cannot create functions table in multiple threads concurrently
	addFuncMutex.Lock()
	defer addFuncMutex.Unlock()

	if baseGoTemplateFuncs == nil {
""", """	t.addBaseFuncs()

	// We cannot create functions table in multiple threads concurrently
	addFuncMutex.Lock()
	defer addFuncMutex.Unlock()

	add := func(o Options, f func()) {
		if t.options[o] {
			f()
		}
	}

	add(Sprig, t.addSprigFuncs)
	add(Math, t.addMathFuncs)
	add(Data, t.addDataFuncs)
	add(Logging, t.addLoggingFuncs)
	add(Runtime, t.addRuntimeFuncs)
	add(Utils, t.addUtilsFuncs)
	add(Net, t.addNetFuncs)
	add(OS, t.addOSFuncs)
	add(Git, t.addGitFuncs)
}

// The functions that every template has
func (t *Template) addBaseFuncs() {
	if baseGoTemplateFuncs == nil {
"""),
  ('template/add_funcs.go', """	t.addFunctions(baseGoTemplateFuncs)

	add := func(o Options, f func()) {
		if t.options[o] {
			f()
		}
	}

	add(Sprig, t.addSprigFuncs)
	add(Math, t.addMathFuncs)
	add(Data, t.addDataFuncs)
	add(Logging, t.addLoggingFuncs)
	add(Runtime, t.addRuntimeFuncs)
	add(Utils, t.addUtilsFuncs)
	add(Net, t.addNetFuncs)
	add(OS, t.addOSFuncs)
	add(Git, t.addGitFuncs)
}
""", """	t.addFunctions(baseGoTemplateFuncs)
}
"""),
  ('template/func_table.go', """	templateMutex.Lock()
	defer templateMutex.Unlock()

	if t.functions == nil {
		t.functions = make(funcTableMap)
	}
""", """	if t.functions == nil {
		t.functions = make(funcTableMap)
	}
"""),
  ('template/func_table.go', """	t.Funcs(funcMap.convert())
	return t
""", """
	templateMutex.Lock()
	defer templateMutex.Unlock()
	t.Funcs(funcMap.convert())
	return t
""")],
  pkg='template', goflags='-race', go=gotest("""func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			MustNewTemplate("", nil, "", nil)
		}()
	}
	wg.Wait()
}
""", imports='"sync" "testing"')),
 dict(id='s29-lock-kept-on-bad-function', property='C23', needs='AddFunctions given something which is not a function, the panic being recovered by the program', breaks='every later use of templates hangs',
  edits=[('template/func_table.go', """	templateMutex.Lock()
	defer templateMutex.Unlock()

	if t.functions == nil {
""", """	templateMutex.Lock()

	if t.functions == nil {
"""), ('template/func_table.go', """	t.Funcs(funcMap.convert())
	return t
""", """	t.Funcs(funcMap.convert())
	templateMutex.Unlock()
	return t
""")],
  pkg='template', go=gotest("""func TestZZDemo(t *testing.T) {
	func() {
		defer func() { recover() }()
		MustNewTemplate("", nil, "", nil).AddFunctions(map[string]interface{}{"bad": 1}, "x", nil)
	}()
	done := make(chan bool)
	go func() {
		MustNewTemplate("", nil, "", nil)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("hangs")
	}
}
""", imports='"testing" "time"')),
 dict(id='s30-action-renamed', property='C29', needs='a single line razor command with its action between braces', breaks='the action is dropped from the result',
  edits=[('template/razor.go', """[sp]{[sp](?P<action>[^\\n]+?)}[sp]$`""", """[sp]{[sp](?P<body>[^\\n]+?)}[sp]$`""")],
  demo="""printf '@if (1 == 1) { hello }\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
grep -q hello a.generated.txt
"""),
 dict(id='s31-empty-result-unchanged', property='C30', needs='a file whose rendering gives an empty text', breaks='such a file is reported as unchanged and left alone',
  edits=[(H, '	changed = result != originalContent\n', '	changed = result != originalContent && result != ""\n')],
  demo="""printf '{{/* nothing */}}' > a.txt
"$tmp/gt" -o a.txt >/dev/null 2>&1
[ ! -s a.txt ]
"""),
 dict(id='s32-folder-of-target-in-print', property='C02', needs='printing while a target folder is given', breaks='the folders of the target are created although results are only printed',
  edits=[(H, """	if t.options[OutputStdout] {
		err = t.printResult""", """	if sourceFolder != targetFolder {
		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
			return
		}
	}

	if t.options[OutputStdout] {
		err = t.printResult""")],
  demo="""echo '{{ add 1 2 }}' > a.txt.gt
"$tmp/gt" -P --target out a.txt.gt >/dev/null 2>&1
[ ! -e out ]
"""),
 dict(id='s33-categories-order', property='C16', needs='two categories of functions listed', breaks='the functions of a category come out in the order of a map',
  edits=[('template/func_category.go', """		sort.Strings(categories[categoryList[i]])
		result[i] =""", """		if len(categories[categoryList[i]]) > 32 {
			sort.Strings(categories[categoryList[i]])
		}
		result[i] =""")],
  pkg='template', go=gotest("""func TestZZDemo(t *testing.T) {
	tmpl := MustNewTemplate("", nil, "", nil)
	for n := 0; n < 5; n++ {
		for _, c := range tmpl.getCategories() {
			if !sort.StringsAreSorted(c.Functions()) {
				t.Fatal(c.Name(), c.Functions())
			}
		}
	}
}
""", imports='"sort" "testing"')),
 dict(id='s34-print-kept-between-files', property='C07', needs='a file with a gotemplate shebang which fails, followed by another file', breaks='the files rendered after it are printed instead of being saved',
  edits=[(H, """	for i := range templates {
		t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file
		resultFile, err := t.processTemplate(templates[i], sourceFolder, targetFolder, handler)
		if err == nil {
""", """	for i := range templates {
		resultFile, err := t.processTemplate(templates[i], sourceFolder, targetFolder, handler)
		if err == nil {
			t.options[OutputStdout] = print // Some file may change this option at runtime, so we restore it back to its originalSourceLines value between each file
""")],
  demo="""printf '#! /usr/bin/env gotemplate\\n{{ fail "x" }}\\n' > 1.txt.gt
echo '{{ add 1 2 }}' > 2.txt.gt
"$tmp/gt" 1.txt.gt 2.txt.gt >/dev/null 2>&1
[ -f 2.generated.txt ]
"""),
 dict(id='s35-razor-off-in-include', property='C09', needs='the razor option off and an include', breaks='razor expressions of included texts are translated although razor is off',
  edits=[('template/razor.go', """	if !t.options[Razor] || !t.IsRazor(string(content)) {
""", """	if !t.options[Razor] && t.parent == nil || !t.IsRazor(string(content)) {
""")],
  pkg='template', go=gotest("""func TestZZDemo(t *testing.T) {
	options := DefaultOptions()
	options[Razor] = false
	child := MustNewTemplate("", nil, "", options).GetNewContext("", true)
	if result, _ := child.applyRazor([]byte("@(1+2)")); string(result) != "@(1+2)" {
		t.Fatal(string(result))
	}
}
""")),
 dict(id='s36-rename-over-existing', property='C01', needs='two templates whose results have the same name', breaks='an unrelated file is moved aside',
  edits=[(H, """	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
""", """	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
	if _, errStat := os.Stat(resultFile); errStat == nil && isTemplate {
		// Keep the previous result
		os.Rename(resultFile, resultFile+".old")
	}
""")],
  demo="""echo previous > a.generated.txt
echo '{{ add 1 2 }}' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
[ ! -e a.generated.txt.old ]
"""),
]
