R = 'template/extra_runtime.go'; M = 'main.go'; T = 'template/template.go'; Z = 'template/razor.go'; X = 'template/razor_repl_expr.go'; E = 'template/razor_expr.go'
SEEDS = [
 dict(id='s37-script-kept-on-failure', property='C24', needs='a script run by exec which fails', breaks='the temporary script is left behind when it fails',
  edits=[(R, '''			defer func() { os.Remove(tempFile) }()
''', '''			defer func() {
				if err != nil {
					// Kept to ease the investigation
					InternalLog.Debugf("Script %s failed: %v", tempFile, err)
					return
				}
				os.Remove(tempFile)
			}()
''')],
  demo='''mkdir td; export TMPDIR=$PWD/td
printf '{{ exec "#! sh\\\\necho hello; exit 3" }}\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1
[ -z "$(ls td)" ]
'''),
 dict(id='s38-folder-kept-after-panic', property='C24', needs='a run that ends with a panic (the source folder is a file)', breaks='the temporary folder of the program stays after a panic',
  edits=[(M, '''			exitCode = -1
		}
		cleanup()
''', '''			exitCode = -1
			return
		}
		cleanup()
''')],
  demo='''mkdir td; export TMPDIR=$PWD/td
echo hi > f
"$tmp/gt" --source f >/dev/null 2>&1
[ -z "$(ls td)" ]
'''),
 dict(id='s39-managed-panic-succeeds', property='C25', needs='a run that ends with a panic that is an error of the system (the source folder is a file)', breaks='the program reports the panic but succeeds',
  edits=[(M, '''			errPrintf(color.RedString("Recovered %v\\n"), rec)
			debug.PrintStack()
			exitCode = -1
''', '''			errPrintf(color.RedString("Recovered %v\\n"), rec)
			if _, isError := rec.(error); !isError {
				// Not something that the program has raised by itself
				debug.PrintStack()
				exitCode = -1
			}
''')],
  demo='''echo hi > f
"$tmp/gt" --source f >/dev/null 2>&1
[ $? -ne 0 ]
'''),
 dict(id='s40-panic-text-lost', property='C25', needs='a template created with a substitution that is not a valid expression', breaks='the panic is caught but no error is returned with the missing template',
  edits=[(T, '''			result, err = nil, fmt.Errorf("%v", rec)
''', '''			result = nil
			err, _ = rec.(error)
''')],
  pkg='template', go='''package template

import "testing"

func TestZZDemo(t *testing.T) {
	result, err := NewTemplate("", nil, "", nil, "/(/x")
	if err == nil {
		t.Fatalf("no error, result %v", result)
	}
}
'''),
 dict(id='s41-unnamed-rules-in-trace', property='C31', needs='a razor text with a string on several lines, rendered at the trace level', breaks='the strings are protected twice, so the text rendered differs at the trace level',
  edits=[(Z, '''	if r.name == "" || !InternalLog.IsLevelEnabled(logrus.DebugLevel) {
		return
	}
''', '''	if !InternalLog.IsLevelEnabled(logrus.DebugLevel) {
		return
	}
	if r.name == "" && !InternalLog.IsLevelEnabled(logrus.TraceLevel) {
		// The basic replacements are only interesting when everything is traced
		return
	}
''')],
  demo='''printf '@x := `one\\ntwo @y`;\\n@x\\n' > a.txt.gt
"$tmp/gt" a.txt.gt >/dev/null 2>&1; a=$(cat a.generated.txt 2>/dev/null); rm -f a.generated.txt
"$tmp/gt" -L trace a.txt.gt >/dev/null 2>&1; b=$(cat a.generated.txt 2>/dev/null)
[ "$a" = "$b" ]
'''),
 dict(id='s42-trace-hides-error', property='C31', needs='an expression that cannot be translated, at the trace level', breaks='the error of an expression is reported by the trace and then forgotten, so the text translated differs at the trace level',
  edits=[(X, '''				if result != match {
					InternalLog.Trace("Resulting expression =", result)
				}
''', '''				if result != match {
					InternalLog.Trace("Resulting expression =", result)
				} else if err != nil {
					InternalLog.Trace("Unable to translate", match, err)
					result, err = "", nil
				}
''')],
  pkg='template', go='''package template

import (
	"io"
	"testing"
)

func TestZZDemo(t *testing.T) {
	InternalLog.SetOut(io.Discard)
	for _, text := range []string{"@x[1 2:3]", "@a[(1 2)]", "@(x y)[1 2]", "@x(1).a(b c)[d e]", "@x[\\"a\\" \\"b\\"]"} {
		var results []string
		for _, level := range []string{"warning", "trace"} {
			InternalLog.SetHookLevel("", level)
			result, _ := MustNewTemplate("", nil, "", nil).applyRazor([]byte(text))
			results = append(results, string(result))
		}
		InternalLog.SetHookLevel("", "warning")
		if results[0] != results[1] {
			t.Errorf("%s: %q, traced: %q", text, results[0], results[1])
		}
	}
}
'''),
 dict(id='s43-search-of-blanks-never-ends', property='C26', needs='a search of all the positions of a text made of blanks only', breaks='the search of the positions of a text never ends when the text is made of blanks',
  edits=[('collections/string.go', 'start, lenSubstr := 0, len(substr)', 'start, lenSubstr := 0, len(strings.TrimSpace(substr))')],
  pkg='collections', go='''package collections

import (
	"fmt"
	"os"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	go func() {
		time.Sleep(time.Second)
		fmt.Println("--- FAIL: the search does not end")
		os.Exit(1)
	}()
	if n := len(String("a b c").IndexAll(" ")); n != 2 {
		t.Error("found", n)
	}
}
'''),
 dict(id='s44-reduction-for-ever', property='C26', needs='a data text with an equal sign that follows no word', breaks='an assignation that cannot be reduced is reduced again and again, until the stack is exhausted',
  edits=[('collections/convert_data.go', """regexp.MustCompile(`[ \\t]*=[ \\t]*`).ReplaceAllString(data, ":")""", """regexp.MustCompile(`(\\w)[ \\t]*=[ \\t]*`).ReplaceAllString(data, "${1}:")""")],
  pkg='template', go='''package template

import (
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
)

func TestZZDemo(t *testing.T) {
	debug.SetMaxStack(64 << 20)
	go func() {
		time.Sleep(10 * time.Second)
		fmt.Println("--- FAIL: the conversion does not end")
		os.Exit(1)
	}()
	for _, text := range []string{"= 3 = 4", "a = b", "(=)"} {
		var out []interface{}
		collections.ConvertData(text, &out)
	}
}
'''),
 dict(id='s45-include-again-and-again', property='C26', needs='an included template that always fails, with the option that accepts missing values', breaks='a template that fails is run again and again',
  edits=[(R, """		if !withClone {
			InternalLog.Debug("Running template""", """		if !withClone || t.options[AcceptNoValue] {
			InternalLog.Debug("Running template""")],
  demo="""printf '{{ include "{{ fail `broken` }}" }}' > a.txt.gt
(ulimit -v 4000000; timeout 20 "$tmp/gt" --accept-no-value a.txt.gt >out 2>&1)
rc=$?
cut -c1-300 out | head -5
[ $rc != 124 ] && ! grep -q 'stack overflow\\|out of memory' out
"""),
]
