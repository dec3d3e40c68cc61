AF='template/add_funcs.go'; D='collections/dictionary.go'; G='collections/generic_list.go'; FT='template/func_table.go'; RZ='template/razor.go'; T='template/template_handler.go'; L='template/extra_logging.go'; SP='template/extra_sprig.go'; X='utils/exec.go'; RL='template/razor_repl_literal.go'; R='template/extra_runtime.go'
def bug(name, *edits, props): return dict(kind='bug', name='lock bug: '+name, props=props, edits=list(edits))
def ok(name, *edits, props=['C22','C23']): return dict(kind='ok', name='lock ok: '+name, props=props, edits=list(edits))
TRIALS = [
 bug('tables created without lock', (AF, '	addFuncMutex.Lock()\n	defer addFuncMutex.Unlock()\n', ''), (AF, 'var addFuncMutex sync.Mutex', ''), (AF, '	"sync"\n', ''), props=['C22']),
 bug('released before the tables are made', (AF, '	defer addFuncMutex.Unlock()\n', '	addFuncMutex.Unlock()\n'), props=['C22']),
 bug('helper read without lock', (D, '''	dictionaryHelperMutex.Lock()
	defer dictionaryHelperMutex.Unlock()
	return dictionaryHelper''', '''	return dictionaryHelper'''), props=['C22']),
 bug('assert reads directly', (D, 'if GetDictionaryHelper() == nil {', 'if dictionaryHelper == nil {'), props=['C22']),
 bug('wrong lock', (G, '''	listHelperMutex.Lock()
	defer listHelperMutex.Unlock()
	return listHelper''', '''	dictionaryHelperMutex.Lock()
	defer dictionaryHelperMutex.Unlock()
	return listHelper'''), props=['C22']),
 bug('cache added without lock', (R, '''	var cmd *exec.Cmd
	if filename''', '''	runCount[command]++
	var cmd *exec.Cmd
	if filename'''), (R, None, '\nvar runCount = map[string]int{}\n'), props=['C22']),
 bug('compiled outside of the lock', (RZ, '''	razorMutex.Lock()
	defer razorMutex.Unlock()
	t.ensureInit()
''', '''	t.ensureInit()
	razorMutex.Lock()
	defer razorMutex.Unlock()
'''), props=['C22']),
 bug('sprig tables filled by a registration from outside', (SP, None, '''
// RegisterSprig adds a function.
func RegisterSprig(name string, info *FuncInfo) { sprigFuncs[name] = info }
'''), props=['C22']),
 bug('early return keeps the lock', (FT, '''	templateMutex.Lock()
	defer templateMutex.Unlock()

	if t.functions == nil {
		t.functions = make(funcTableMap)
	}
''', '''	templateMutex.Lock()
	if len(funcMap) == 0 {
		return t
	}
	defer templateMutex.Unlock()

	if t.functions == nil {
		t.functions = make(funcTableMap)
	}
'''), props=['C23']),
 bug('error path keeps the lock', (T, '''		templateMutex.Lock()
		defer templateMutex.Unlock()
		newTemplate, err = newTemplate.Parse(th.Code)''', '''		templateMutex.Lock()
		if newTemplate, err = newTemplate.Parse(th.Code); err == nil {
			templateMutex.Unlock()
		}'''), props=['C23']),
 bug('nested acquisition', (FT, '''func (t *Template) addFunctions(funcMap funcTableMap) *Template {
''', '''func (t *Template) addFunctions(funcMap funcTableMap) *Template {
	addFuncMutex.Lock()
	defer addFuncMutex.Unlock()
'''), props=['C23']),
 bug('held while executing', (T, '''	if err = newTemplate.Execute(&out, workingContext); err != nil {''', '''	templateMutex.Lock()
	err = newTemplate.Execute(&out, workingContext)
	templateMutex.Unlock()
	if err != nil {'''), props=['C23']),
 bug('opposite order', (FT, '''	templateMutex.Lock()
	defer templateMutex.Unlock()

	if t''', '''	templateMutex.Lock()
	defer templateMutex.Unlock()
	defer func() { collections.GetDictionaryHelper() }()

	if t'''), (D, None, '''
// LockOrder is taken around template.
var LockOrder sync.Mutex
'''), (AF, '	addFuncMutex.Lock()\n', '	collections.LockOrder.Lock()\n	defer collections.LockOrder.Unlock()\n	addFuncMutex.Lock()\n'), (AF, '	"github.com/coveooss/gotemplate/v3/utils"', '	"github.com/coveooss/gotemplate/v3/collections"\n	"github.com/coveooss/gotemplate/v3/utils"'), (FT, '	if t.functions == nil {\n		t.functions = make(funcTableMap)', '	collections.LockOrder.Lock()\n	collections.LockOrder.Unlock()\n	if t.functions == nil {\n		t.functions = make(funcTableMap)'), props=['C23']),
 ok('lock wrapped', (AF, '''	addFuncMutex.Lock()
	defer addFuncMutex.Unlock()
''', '''	lockTables()
	defer unlockTables()
'''), (AF, None, '''
func lockTables()   { addFuncMutex.Lock() }
func unlockTables() { addFuncMutex.Unlock() }
''')),
 ok('read-write lock', (D, 'var dictionaryHelperMutex sync.Mutex', 'var dictionaryHelperMutex sync.RWMutex'), (D, '''	dictionaryHelperMutex.Lock()
	defer dictionaryHelperMutex.Unlock()
	return dictionaryHelper''', '''	dictionaryHelperMutex.RLock()
	defer dictionaryHelperMutex.RUnlock()
	return dictionaryHelper''')),
 ok('explicit release', (D, '''	dictionaryHelperMutex.Lock()
	defer dictionaryHelperMutex.Unlock()
	return dictionaryHelper''', '''	dictionaryHelperMutex.Lock()
	helper := dictionaryHelper
	dictionaryHelperMutex.Unlock()
	return helper''')),
 ok('critical section as function', (FT, '''	templateMutex.Lock()
	defer templateMutex.Unlock()

	if t.functions == nil {
		t.functions = make(funcTableMap)
	}
''', '''	unlock := enter()
	defer unlock()

	if t.functions == nil {
		t.functions = make(funcTableMap)
	}
'''), (FT, None, '''
func enter() func() {
	templateMutex.Lock()
	return templateMutex.Unlock
}
''')),
 ok('with lock', (T, '''		templateMutex.Lock()
		defer templateMutex.Unlock()
		newTemplate, err = newTemplate.Parse(th.Code)''', '''		withTemplateLock(func() { newTemplate, err = newTemplate.Parse(th.Code) })'''), (T, None, '''
func withTemplateLock(f func()) {
	templateMutex.Lock()
	defer templateMutex.Unlock()
	f()
}
''')),
 ok('shell found once', (X, '''	defaultShellMutex.Lock()
	defer defaultShellMutex.Unlock()
	if defaultShell != "" {
		return defaultShell
	}
	defShells''', '''	shellOnce.Do(findShell)
	return defaultShell
}

var shellOnce sync.Once

func findShell() {
	defShells'''), (X, '''			break
		}
	}
	return defaultShell
}''', '''			break
		}
	}
}'''), (X, '	defaultShellMutex sync.Mutex\n', '')),
 ok('tables built by a helper', (AF, '''	if baseGoTemplateFuncs == nil {
		baseGoTemplateFuncs = make(funcTableMap, len(baseGoTemplate))
		for key, val := range baseGoTemplate {
			baseGoTemplateFuncs[key] = &FuncInfo{
				group:       goTemplateBase,
				description: val.description,
				in:          val.args,
				out:         val.out,
			}
		}
	}
	t.addFunctions(baseGoTemplateFuncs)
''', '''	t.addFunctions(baseTable())
'''), (AF, None, '''
func baseTable() funcTableMap {
	if baseGoTemplateFuncs != nil {
		return baseGoTemplateFuncs
	}
	table := make(funcTableMap, len(baseGoTemplate))
	for key, val := range baseGoTemplate {
		table[key] = &FuncInfo{group: goTemplateBase, description: val.description, in: val.args, out: val.out}
	}
	baseGoTemplateFuncs = table
	return table
}
''')),
 ok('direct calls instead of add', (AF, '''	add(Sprig, t.addSprigFuncs)
''', '''	if t.options[Sprig] {
		t.addSprigFuncs()
	}
''')),
 ok('razor in two functions', (RZ, '''	razorMutex.Lock()
	defer razorMutex.Unlock()
	t.ensureInit()
''', '''	razorMutex.Lock()
	defer razorMutex.Unlock()
	return t.translate(content)
}

func (t *Template) translate(content []byte) (result []byte, changed bool) {
	t.ensureInit()
''')),
 ok('locker interface', (AF, '''	addFuncMutex.Lock()
	defer addFuncMutex.Unlock()
''', '''	var guard sync.Locker = &addFuncMutex
	guard.Lock()
	defer guard.Unlock()
''')),
]
