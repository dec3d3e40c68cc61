A='template/add_funcs.go'; T='template/template.go'; U='template/extra_utils.go'; N='template/extra_net.go'; G='template/extra_git.go'; O='template/extra_os.go'; S='template/extra_sprig.go'
F='template/func_table.go'; Z='template/razor.go'; E='template/razor_expr.go'; X='template/razor_repl_expr.go'; RA='template/razor_repl_assign.go'; RW='template/razor_repl_autowrap.go'; RL='template/razor_repl_literal.go'
B='template/math_base.go'; BI='template/math_bits.go'; M='template/extra_math.go'; H='template/template_handler.go'; EH='template/template_error_handler.go'; D='template/extra_data.go'; R='template/extra_runtime.go'; L='template/extra_logging.go'
def bug(p, name, *edits): return dict(kind='bug', name='lang bug %s: '%p+name, props=[p], edits=list(edits))
def ok(ps, name, *edits): return dict(kind='ok', name='lang ok: '+name, props=ps.split(), edits=list(edits))
ALL='C17 C18 C19 C20 C21 C29'
TRIALS = [
 bug('C17', 'rawList also printRaw', (U, '	"raw":        {"printRaw"},', '	"raw":        {"printRaw"},\n	"rawList":    {"printRaw"},')),
 bug('C17', 'alias of nothing', (U, '	"wrap":       {"wrapped"},\n}', '	"wrap":       {"wrapped"},\n	"wrapText":   {"wrapt"},\n}')),
 bug('C17', 'alias is a function', (U, '	"color":      {"colored", "enhanced"},', '	"color":      {"colored", "enhanced", "colorln"},')),
 bug('C17', 'argument too many', (N, '	"httpDoc": {"url"},\n}', '	"httpDoc": {"url", "timeout"},\n}')),
 bug('C17', 'math alias twice', (M, 'var mathBitsAliases', 'var mathBitsAliases')) if False else
 bug('C17', 'sprig alias of another', (S, 'aliases: []string{"trunc"}', 'aliases: []string{"trunc", "upper"}')),
 bug('C17', 'last alias wins', (F, '		for i := range value.aliases {\n			funcMap', '		for i := range value.aliases {\n			if i > 0 {\n				value = &FuncInfo{alias: value, function: value.function, aliases: value.aliases}\n			}\n			funcMap')) if False else
 bug('C17', 'net alias of both', (N, '	"httpDoc": {"httpDocument", "curl"},', '	"httpDoc": {"httpDocument", "curl"},\n	"httpGet": {"curl"},')),
 bug('C18', 'os brings runtime', (O, '	t.AddFunctions(osFuncs', '	t.addRuntimeFuncs()\n	t.AddFunctions(osFuncs')),
 bug('C18', 'utils always', (A, '		if t.options[o] {', '		if t.options[o] || o == Utils {')),
 bug('C18', 'git without option', (A, '	add(Git, t.addGitFuncs)', '	t.addGitFuncs()')),
 bug('C18', 'net and os exchanged', (A, '	add(Net, t.addNetFuncs)\n	add(OS, t.addOSFuncs)', '	add(Net, t.addOSFuncs)\n	add(OS, t.addNetFuncs)')),
 bug('C18', 'http in utils', (N, '	"httpGet": httpGet,\n', ''), (N, '	"httpGet": {"url"},\n', ''), (N, '	"httpGet": "Returns http get response from supplied URL.",\n', ''), (U, '	"id":         id,\n', '	"id":         id,\n	"httpGet":    httpGet,\n')),
 bug('C18', 'defaults put back in a new context', (T, '	for k, v := range t.options {\n		newTemplate.options[k] = v\n	}', '	for k, v := range t.options {\n		newTemplate.options[k] = v || DefaultOptions()[k]\n	}\n	newTemplate.addFuncs()')),
 bug('C18', 'runtime forced on', (T, '	if acceptNoValue {\n', '	t.options[Runtime] = true\n	if acceptNoValue {\n')),
 bug('C18', 'missing option is on', (A, '		if t.options[o] {', '		if on, set := t.options[o]; on || !set {')),
 bug('C18', 'option switched off only once', (A, '	add := func(o Options, f func()) {\n		if t.options[o] {', '	add := func(o Options, f func()) {\n		if t.options[o] || t.parent != nil {')),
 bug('C19', 'strip reads file', (U, '	return stripansi.Strip(fmt.Sprint(value))', '	text := fmt.Sprint(value)\n	if strings.HasPrefix(text, "file:") {\n		if content, err := os.ReadFile(text[5:]); err == nil {\n			text = string(content)\n		}\n	}\n	return stripansi.Strip(text)'), (U, '	"fmt"\n', '	"fmt"\n	"os"\n')),
 bug('C19', 'id kept on disk', (U, '	dup := duplicateUnderscore\n', '	dup := duplicateUnderscore\n	if len(id) > 1000 {\n		_ = os.WriteFile(os.TempDir()+"/"+replacement, []byte(id), 0600)\n	}\n'), (U, '	"fmt"\n', '	"fmt"\n	"os"\n')),
 bug('C19', 'data fetches schema', (D, 'func (t *Template) addDataFuncs', 'func fetch(url string) { _, _ = httpGet(url) }\n\nfunc (t *Template) addDataFuncs'), (D, 'func toBash(', 'func toBash(')) if False else
 bug('C19', 'random from a service', (U, '	kind, err := utils.GetLoremKind(fmt.Sprint(funcName))\n', '	if fmt.Sprint(funcName) == "live" {\n		_, err = httpGet("http://lorem.example")\n		return\n	}\n	kind, err := utils.GetLoremKind(fmt.Sprint(funcName))\n')),
 bug('C19', 'error ends program', (L, '"error":', '"error":')) if False else
 bug("C19", "modulo by zero exits", (B, "func modulo(a, b interface{}) (r interface{}, err error) {\n", "func modulo(a, b interface{}) (r interface{}, err error) {\n\tif fmt.Sprint(b) == \"0\" {\n\t\tos.Exit(2)\n\t}\n"), (B, "import (\n", "import (\n\t\"os\"\n")),
 bug('C20', 'greater or equal', (X, '{"≧", ">="}', '{"≧", ">"}')),
 bug('C20', 'clear reversed', (BI, '&^', '^&')) if False else
 bug('C20', 'negation of variables', (E, 'fmt.Sprintf("sub 0 %s", x)', 'fmt.Sprintf("sub %s 0", x)')),
 bug('C20', 'power reversed', (E, 'result = fmt.Sprintf("power %s %s", x, strings.Replace(y, "*", "", -1))', 'result = fmt.Sprintf("power %s %s", strings.Replace(y, "*", "", -1), x)')),
 bug('C20', 'bounds exchanged', (E, 'result = fmt.Sprintf("slice %s %s %s", x, low, high)', 'result = fmt.Sprintf("slice %s %s %s", x, high, low)')),
 bug('C20', 'or of bits', (E, '	"|":  "bor",', '	"|":  "bxor",')),
 bug('C20', 'modulo is remainder', (B, 'func modulo(a, b interface{}) (r interface{}, err error) {', 'func modulo(b, a interface{}) (r interface{}, err error) {')),
 bug('C20', 'extract renamed', (X, '"extract", false', '"extracts", false')),
 bug('C21', 'email with @', (RL, 'strings.Replace(match, razorDelim, razorDelim+razorDelim, 1)', 'strings.Replace(match, "@", "@@", 1)')),
 bug('C21', 'wrap with @', (RW, '		repl.delimiters[2],\n		matches["nl"],', '		"@",\n		matches["nl"],')),
 bug('C21', 'default left in IsCode', (T, 'strings.Contains(code, t.LeftDelim())', 'strings.Contains(code, "{{")')),
 bug('C21', 'unquoted left', (EH, 'regexp.QuoteMeta(t.LeftDelim())', 't.LeftDelim()')),
 bug('C21', 'ignored with unquoted delimiter', (Z, 'ignoredExpr = regexp.QuoteMeta(t.RazorDelim()) + ignoredExpr', 'ignoredExpr = t.RazorDelim() + ignoredExpr')),
 bug('C21', 'executed code between default delimiters', (R, 'template := fmt.Sprintf("%s %s %s %s", t.LeftDelim(), function, strings.Join(argsStr, " "), t.RightDelim())', 'template := fmt.Sprintf("{{ %s %s }}", function, strings.Join(argsStr, " "))')),
 bug('C21', 'cache by razor delimiter', (Z, '	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {', '	for _, r := range replacementsInit[t.RazorDelim()] {'), (Z, '	delimiters := fmt.Sprint(t.delimiters)\n	if _', '	delimiters := t.RazorDelim()\n	if _')),
 bug('C21', 'group by left', (EH, 'groupName := fmt.Sprintf("Undef%s", t.delimiters)', 'groupName := fmt.Sprintf("Undef%s", t.LeftDelim())'), (EH, 'reutils.NewRegexGroup(fmt.Sprintf("Undef%s", t.delimiters), ', 'reutils.NewRegexGroup(groupName, ')),
 bug('C21', 'strings keep @', (X, 'includedStrings[i].Replace(repl.delimiters[2], literalAt)', 'includedStrings[i].Replace("@", literalAt)')),
 bug('C21', 'set with default delimiters', (RA, 'return fmt.Sprintf("%s- $%s %s %s %s", repl.delimiters[0], id, assign, expr, repl.delimiters[1])', 'return fmt.Sprintf("{{- $%s %s %s }}", id, assign, expr)')),
 bug('C21', 'sub expression without delimiters', (X, '	result.delimiters = r.delimiters\n', '	result.delimiters = []string{"{{", "}}", "@"}\n')),
 bug('C21', 'paused left only', (H, '					splitLines[index] = strings.ReplaceAll(splitLines[index], t.LeftDelim(), leftDelimReplacement)\n', '					splitLines[index] = strings.ReplaceAll(splitLines[index], "{{", leftDelimReplacement)\n')),
 bug('C29', 'line comment group', (Z, '(?P<line_comment>.*)', '(?P<comment>.*)')),
 bug('C29', 'group glued', (X, '"${prefix}%s${value}"', '"$prefix%s${value}"')),
 bug('C29', 'negative index', (X, '"[${index}:0]"', '"[$indexes:0]"')),
 bug('C29', 'before of wrap', (Z, '(?m)^(?P<before>.*)@(?P<nl><)?', '(?m)^(?P<previous>.*)@(?P<nl><)?')),
 bug('C29', 'reduction numbered', (Z, '"{{${reduce1} end ${reduce2}}}"},\n\n	// Assign', '"{{${reduce1} end ${reduce3}}}"},\n\n	// Assign')),
 ok(ALL, 'options tested before', (A, '		if t.options[o] {\n			f()\n		}\n', '		if !t.options[o] {\n			return\n		}\n		f()\n')),
 ok(ALL, 'table of add-ons', (A, '	add := func(o Options, f func()) {\n		if t.options[o] {\n			f()\n		}\n	}\n', '	add := t.addWhen\n'), (A, '// Apply all regular', 'func (t *Template) addWhen(option Options, register func()) {\n	if enabled := t.options[option]; enabled {\n		register()\n	}\n}\n\n// Apply all regular')),
 ok(ALL, 'loop over rows', (A, '''	add(Sprig, t.addSprigFuncs)
	add(Math, t.addMathFuncs)
''', '''	for _, row := range []struct {
		option   Options
		register func()
	}{{Sprig, t.addSprigFuncs}, {Math, t.addMathFuncs}} {
		add(row.option, row.register)
	}
''')),
 ok(ALL, 'information built apart', (F, '''		funcInfo := &FuncInfo{
			function:    val,
			group:       defval(group, groups[key]).(string),
			aliases:     aliases[key],
			arguments:   arguments[key],
			description: help[key],
			examples:    examples[key],
		}
		ft[key] = funcInfo
''', '''		info := new(FuncInfo)
		info.function = val
		info.group = defval(group, groups[key]).(string)
		info.aliases, info.arguments = aliases[key], arguments[key]
		info.description, info.examples = help[key], examples[key]
		ft[key] = info
''')),
 ok(ALL, 'alias in a variable', (F, '''		for i := range value.aliases {
			funcMap[value.aliases[i]] = &FuncInfo{alias: value, function: value.function, name: value.aliases[i]}
			t.functions[value.aliases[i]] = funcMap[value.aliases[i]]
		}
''', '''		for _, alias := range value.aliases {
			info := &FuncInfo{alias: value, function: value.function, name: alias}
			funcMap[alias] = info
			t.functions[alias] = info
		}
''')),
 ok(ALL, 'operands of a binary', (E, '		result = fmt.Sprintf("%s %s %s", op, x, y)\n', '		result = strings.Join([]string{op, x, y}, " ")\n')),
 ok(ALL, 'names of operands', (E, '''		if x, err = nodeValueInternal(n.X); err != nil {
			return
		}
		if y, err = nodeValueInternal(n.Y); err != nil {
			return
		}
		if op == "mul"''', '''		if x, y, err = operands(n); err != nil {
			return
		}
		if op == "mul"'''), (E, 'var operators = map', 'func operands(n *ast.BinaryExpr) (x, y string, err error) {\n	if x, err = nodeValueInternal(n.X); err == nil {\n		y, err = nodeValueInternal(n.Y)\n	}\n	return\n}\n\nvar operators = map')),
 ok(ALL, 'value of the assignment', (RA, '''		if tp == "@{" {
			expr = fmt.Sprintf("$%[1]s %[2]s (%[3]s)", id, operator, expr)
		} else {
			value := map[string]string{"@": "$.", "@.": ".", "@$": "$"}[tp] + id
			expr = fmt.Sprintf("%[1]s %[2]s (%[3]s)", value, operator, expr)
		}
''', '''		value := "$" + id
		if tp != "@{" {
			value = map[string]string{"@": "$.", "@.": ".", "@$": "$"}[tp] + id
		}
		expr = fmt.Sprintf("%s %s (%s)", value, operator, expr)
''')),
 ok(ALL, 'synonyms in a variable', (X, '''		for _, synonym := range [][2]string{
			{"<>", "!="}, {"≠", "!="},
			{"÷", "/"},
			{"≦", "<="}, {"≧", ">="},
			{"«", "<<"}, {"»", ">>"},
			{reserved["..."], "..."},
		} {
			protected = protected.Replace(synonym[0], synonym[1])
		}
''', '''		for _, synonym := range synonyms {
			protected = protected.Replace(synonym[0], synonym[1])
		}
		protected = protected.Replace(reserved["..."], "...")
'''), (X, 'var dotPrefix', 'var synonyms = [][2]string{\n	{"<>", "!="}, {"≠", "!="},\n	{"÷", "/"},\n	{"≦", "<="}, {"≧", ">="},\n	{"«", "<<"}, {"»", ">>"},\n}\n\nvar dotPrefix')),
 ok(ALL, 'delimiters in variables', (RA, '		return fmt.Sprintf("%s- $%s %s %s %s", repl.delimiters[0], id, assign, expr, repl.delimiters[1])\n', '		left, right := repl.delimiters[0], repl.delimiters[1]\n		return left + "- $" + id + " " + assign + " " + expr + " " + right\n')),
 ok(ALL, 'email guard', (RL, '''	if strings.HasPrefix(match, razorDelim) || match[0] == '#' {
		// This is not an email
		return match
	}
	return strings.Replace(match, razorDelim, razorDelim+razorDelim, 1)''', '''	if isEmail := !strings.HasPrefix(match, razorDelim) && match[0] != '#'; isEmail {
		match = strings.Replace(match, razorDelim, strings.Repeat(razorDelim, 2), 1)
	}
	return match''')),
 ok(ALL, 'quoted delimiters', (EH, '			left := fmt.Sprintf(`(?P<begin>(%s-?\\s*(if|range|with)\\s.*|\\()\\s*)?`, regexp.QuoteMeta(t.LeftDelim()))\n', '			quoted := regexp.QuoteMeta(t.LeftDelim())\n			left := "(?P<begin>(" + quoted + `-?\\s*(if|range|with)\\s.*|\\()\\s*)?`\n')),
 ok(ALL, 'code tests apart', (T, '	return !strings.Contains(code, noGoTemplate) && (t.IsRazor(code) || strings.Contains(code, t.LeftDelim()) || strings.Contains(code, t.RightDelim()))\n', '	if strings.Contains(code, noGoTemplate) {\n		return false\n	}\n	for _, delimiter := range t.delimiters[:2] {\n		if strings.Contains(code, delimiter) {\n			return true\n		}\n	}\n	return t.IsRazor(code)\n')),
 ok(ALL, 'key of the cache', (Z, '	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {', '	for _, r := range t.replacements() {'), (Z, 'var razorMutex sync', 'func (t *Template) replacements() []replacement {\n	return replacementsInit[fmt.Sprint(t.delimiters)]\n}\n\nvar razorMutex sync')),
 ok(ALL, 'generated code by concatenation', (R, 'template := fmt.Sprintf("%s %s %s %s", t.LeftDelim(), function, strings.Join(argsStr, " "), t.RightDelim())', 'template := t.LeftDelim() + " " + function + " " + strings.Join(argsStr, " ") + " " + t.RightDelim()')),
 ok(ALL, 'number of the string', (RL, '		index := must(strconv.Atoi(repl.re.FindStringSubmatch(match)[1])).(int)\n', '		groups := repl.re.FindStringSubmatch(match)\n		index := must(strconv.Atoi(groups[1])).(int)\n')),
 ok(ALL, 'response closed first', (N, '	defer response.Body.Close()\n	return goquery.NewDocumentFromReader(response.Body)', '	document, err := goquery.NewDocumentFromReader(response.Body)\n	response.Body.Close()\n	return document, err')),
 ok(ALL, 'repository opened once', (G, '''	repository, err := git.PlainOpen(path)
	if err != nil {
		return "", err
	}
	head, err := repository.Head()
	if err != nil {
		return "", err
	}
	return head.Hash().String(), nil''', '''	head, err := headOf(path)
	if err != nil {
		return "", err
	}
	return head.Hash().String(), nil'''), (G, 'func currentBranch', 'func headOf(path string) (*plumbing.Reference, error) {\n	repository, err := git.PlainOpen(path)\n	if err != nil {\n		return nil, err\n	}\n	return repository.Head()\n}\n\nfunc currentBranch'), (G, '	git "github.com/go-git/go-git/v5"\n', '	git "github.com/go-git/go-git/v5"\n	"github.com/go-git/go-git/v5/plumbing"\n')),
]
