R = 'template/extra_runtime.go'; M = 'main.go'; T = 'template/template.go'; Z = 'template/razor.go'; X = 'template/razor_repl_expr.go'; E = 'template/razor_expr.go'; H = 'template/template_handler.go'; A = 'template/add_funcs.go'
PRE54 = '''package template

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Contains

func run(t *testing.T, options OptionsSet, name, content string, prepare func(src, dst string)) (string, []string, error) {
	t.Helper()
	src, dst := t.TempDir(), t.TempDir()
	file := filepath.Join(src, name)
	if err := os.WriteFile(file, []byte(content), 0644); err != nil {
		t.Fatal(err)
	}
	if prepare != nil {
		prepare(src, dst)
	}
	tpl, err := NewTemplate(src, map[string]interface{}{"name": "x"}, "", options)
	if err != nil {
		t.Fatal(err)
	}
	list, err := tpl.ProcessTemplates(src, dst, file)
	return dst, list, err
}
'''
SEEDS = [
 dict(id='s46-options-of-caller-completed', property='C08', needs='GOTEMPLATE_NO_VALUE set and two templates made with the same set of options', breaks='the set of options of the caller is changed, for every other template made with it',
  edits=[(T, '''	if acceptNoValue {
		t.options[AcceptNoValue] = true
	}
''', '''	if acceptNoValue {
		if options == nil {
			options = t.options
		}
		t.options[AcceptNoValue], options[AcceptNoValue] = true, true
	}
''')],
  pkg='template', go='''package template

import "testing"

func TestZZDemo(t *testing.T) {
	defer func(saved bool) { acceptNoValue = saved }(acceptNoValue)
	acceptNoValue = true
	options := DefaultOptions()
	if _, err := NewTemplate("", nil, "", options); err != nil {
		t.Fatal(err)
	}
	if options[AcceptNoValue] {
		t.Fatal("the options of the caller were changed")
	}
}
'''),
 dict(id='s47-unset-option-is-on', property='C18', needs='a set of options that does not mention an add-on', breaks='the functions of the add-ons that were not asked for are there',
  edits=[(A, '''		if t.options[o] {
''', '''		if on, set := t.options[o]; on || !set {
''')],
  pkg='template', go='''package template

import "testing"

func TestZZDemo(t *testing.T) {
	tpl, err := NewTemplate("", nil, "", OptionsSet{Sprig: true, Data: true})
	if err != nil {
		t.Fatal(err)
	}
	if result, err := tpl.ProcessContent(`{{ exec "echo hello" }}`, "test"); err == nil && result != `{{ exec "echo hello" }}` {
		t.Fatalf("exec is available: %v", result)
	}
}
'''),
 dict(id='s48-called-between-default-delimiters', property='C21', needs='other delimiters, and the function ellipsis', breaks='the function is not found: its call is written between {{ and }}',
  edits=[(R, '''template := fmt.Sprintf("%s %s %s %s", t.LeftDelim(), function, strings.Join(argsStr, " "), t.RightDelim())''', '''template := fmt.Sprintf("{{ %s %s }}", function, strings.Join(argsStr, " "))''')],
  pkg='template', go='''package template

import "testing"

func TestZZDemo(t *testing.T) {
	for _, delims := range []string{"", "[[,]],@"} {
		tpl, err := NewTemplate("", nil, delims, nil)
		if err != nil {
			t.Fatal(err)
		}
		l, r := tpl.LeftDelim(), tpl.RightDelim()
		result, err := tpl.ProcessContent(l+` ellipsis "add" (list 1 2) `+r, "test")
		if err != nil || result != "3" {
			t.Fatalf("%s: %q %v", delims, result, err)
		}
	}
}
'''),
 dict(id='s49-power-reversed', property='C20', needs='** in an expression, when the operands are different', breaks='a ** b gives b to the power a',
  edits=[(E, '''result = fmt.Sprintf("power %s %s", x, strings.Replace(y, "*", "", -1))''', '''result = fmt.Sprintf("power %s %s", strings.Replace(y, "*", "", -1), x)''')],
  demo='''printf '@(2**3)\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
[ "$(cat a.generated.txt a.txt 2>/dev/null)" = 8 ]
'''),
 dict(id='s50-panic-of-a-file-ends-the-batch', property='C25', needs='a panic that is a text while one file of a batch is rendered (an expression of GOTEMPLATE_IGNORE_RAZOR that is not valid)', breaks='the panic goes through the rendering of the file: it is no error of it',
  edits=[(H, '''	defer func() { err = trapError(err, recover()) }()

	isCode''', '''	defer func() {
		if rec := recover(); rec != nil {
			if _, isError := rec.(error); !isError {
				panic(rec) // Not something that the template has raised
			}
			err = trapError(err, rec)
		}
	}()

	isCode''')],
  pkg='template', go='''package template

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	tpl, err := NewTemplate("", nil, "", nil)
	if err != nil {
		t.Fatal(err)
	}
	tpl.IgnoreRazorExpression("(")
	dir := t.TempDir()
	source := filepath.Join(dir, "a.txt.gt")
	if err := os.WriteFile(source, []byte("hello @name"), 0600); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if rec := recover(); rec != nil {
			t.Fatalf("panic: %v", rec)
		}
	}()
	if _, err := tpl.ProcessTemplates(dir, dir, source); err == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='s51-exclusion-error-shadowed', property='C05', needs='a pattern of exclusion that is not valid', breaks='the error is printed but the status is 0',
  edits=[(M, """	*templates, err = exclude(*templates, *excludedPatterns)
	if err != nil {
		errors.Print(err)
		exitCode = 1
	}
""", """	if selected, excludeErr := exclude(*templates, *excludedPatterns); excludeErr == nil {
		*templates = selected
	} else {
		errors.Print(excludeErr)
	}
""")],
  demo="""echo 'hello' > a.txt.gt
"$tmp/gt" -e '[' a.txt.gt >/dev/null 2>&1
[ $? -ne 0 ]
"""),
 dict(id='s53-forced-razor-in-include', property='C09', needs='razor off, and a text with razor expressions that is included', breaks='the included text is translated although razor is off',
  edits=[(R, '''		razor, _ := t.applyRazor([]byte(source))
''', '''		saved := t.options[Razor]
		t.options[Razor] = true // It may come from a template made for razor
		razor, _ := t.applyRazor([]byte(source))
		t.options[Razor] = saved
''')],
  pkg='template', go='''package template

import "testing"

func TestZZDemo(t *testing.T) {
	tpl, err := NewTemplate("", map[string]interface{}{"name": "x"}, "", DefaultOptions().Unset(Razor))
	if err != nil {
		t.Fatal(err)
	}
	const code = `{{ include "contact: {{ .name }} @name" }}`
	if result, err := tpl.ProcessContent(code, "test"); err != nil || result != "contact: x @name" {
		t.Fatalf("%q %v", result, err)
	}
}
'''),

 dict(id='s54-target-not-emptied', property='C32', needs='a target file that is there already and is longer than the result', breaks='the end of the former content is left after the result',
  edits=[(H, '''	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {
		return
	}
''', '''	flags := os.O_WRONLY | os.O_CREATE
	if sourceFolder == targetFolder {
		flags |= os.O_TRUNC
	}
	out, err := os.OpenFile(resultFile, flags, mode)
	if err != nil {
		return
	}
	defer out.Close()
	if _, err = out.WriteString(result); err != nil {
		return
	}
''')],
  pkg='template', go=PRE54 + '''
func TestZZDemo(t *testing.T) {
	dst, _, err := run(t, nil, "a.txt", "Hello {{ .name }}\\n", func(src, dst string) {
		os.WriteFile(filepath.Join(dst, "a.txt"), []byte("Hello someone with a long name\\nand more\\n"), 0644)
	})
	if err != nil {
		t.Fatal(err)
	}
	if content, err := os.ReadFile(filepath.Join(dst, "a.txt")); err != nil || string(content) != "Hello x\\n" {
		t.Fatalf("%q %v", content, err)
	}
}
'''),
 dict(id='s55-write-error-tolerated', property='C32', needs='a target that cannot be written, such as a folder of that name', breaks='the processing succeeds and gives the name of a file that was not written',
  edits=[(H, '''	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {
		return
	}
''', '''	if errWrite := os.WriteFile(resultFile, []byte(result), mode); errWrite != nil {
		// The other files may still be processed
		InternalLog.Errorf("Unable to write %s: %v", resultFile, errWrite)
		return
	}
''')],
  pkg='template', go=PRE54 + '''
func TestZZDemo(t *testing.T) {
	_, list, err := run(t, nil, "a.txt", "Hello {{ .name }}\\n", func(src, dst string) {
		os.MkdirAll(filepath.Join(dst, "a.txt"), 0755)
	})
	if err == nil {
		t.Fatalf("no error, %v", list)
	}
}
'''),
 dict(id='s56-blank-files-dropped', property='C32', needs='a template with an extension under its own, whose result is blank', breaks='no file is written, although its name has an extension',
  edits=[(H, '''		if strings.TrimSpace(result)+ext == "" {
''', '''		if strings.TrimSpace(result) == "" && (ext == "" || sourceFolder != targetFolder) {
''')],
  pkg='template', go=PRE54 + '''
func TestZZDemo(t *testing.T) {
	dst, list, err := run(t, nil, "a.txt.gt", "{{ if false }}x{{ end }}\\n", nil)
	files, _ := filepath.Glob(filepath.Join(dst, "a*.txt"))
	if err != nil || len(files) != 1 {
		t.Fatalf("%v %v %v", files, list, err)
	}
}
'''),
]
