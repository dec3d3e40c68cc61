M='main.go'; Z='template/razor.go'; E='template/razor_expr.go'; X='template/razor_repl_expr.go'; L='template/extra_logging.go'; H='template/template_handler.go'
def bug(name, *edits): return dict(kind='bug', name='log bug: '+name, props=['C31'], edits=list(edits))
def ok(name, *edits): return dict(kind='ok', name='log ok: '+name, props=['C31','C11','C20'], edits=list(edits))
TR='''	if !debugMode && InternalLog.IsLevelEnabled(logrus.TraceLevel) {
		InternalLog.Tracef(color.HiBlueString("%T => %s"), node, result)
	}
'''
PD='	if r.name == "" || !InternalLog.IsLevelEnabled(logrus.DebugLevel) {\n		return\n	}\n'
TRIALS = [
 bug('expression trimmed in trace', (E, TR, TR.replace('InternalLog.Tracef(', 'result = color.HiBlueString(result)\n		InternalLog.Tracef('))),
 bug('unnamed rules debugged', (Z, PD, PD.replace('r.name == "" || ', ''))),
 bug('no debug, no translation', (Z, '	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {\n		printDebug', '	if !InternalLog.IsLevelEnabled(logrus.DebugLevel) && len(content) > 1000000 {\n		return content, false\n	}\n	for _, r := range replacementsInit[fmt.Sprint(t.delimiters)] {\n		printDebug')),
 bug('deferred trace alters', (X, 'InternalLog.Trace("Resulting expression =", result)', 'result = strings.TrimSpace(result)\n					InternalLog.Trace("Resulting expression =", result)')),
 bug('debug mode skips', (X, '		if skipError {\n			return match, err', '		if skipError || debugMode {\n			return match, err')),
 bug('debug highlights the content', (Z, '	content = []byte(strings.Replace(string(content), funcCall, "", -1))\n', '	content = []byte(strings.Replace(string(content), funcCall, "", -1))\n	if InternalLog.IsLevelEnabled(logrus.TraceLevel) {\n		content = []byte(String(content).AddLineNumber(0).Str())\n	}\n')),
 bug('logged text returned', (L, '	f(multicolor.FormatMessage(args...))\n	return ""', '	f(multicolor.FormatMessage(args...))\n	if TemplateLog.GetLevel() > 5 {\n		return multicolor.FormatMessage(args...)\n	}\n	return ""')),
 bug('level turns an option', (M, '	if path := *logFilePath; path != "" {\n', '	if *internalLogLevel == "trace" {\n		*overwrite = true\n	}\n	if path := *logFilePath; path != "" {\n')),
 bug('warnings are errors', (L, '"warning": func(args ...interface{}) string { return logBase(TemplateLog.Warning,', '"warning": func(args ...interface{}) string { return logBase(TemplateLog.Error,')),
 bug('strings forgotten in debug', (Z, '	debugMode = true\n', '	debugMode = true\n	longStrings = nil\n')),
 bug('log file announced', (M, '	if path := *logFilePath; path != "" {\n', '	if path := *logFilePath; path != "" {\n		os.Stdout.WriteString("Logging in " + path)\n')),
 bug('rules dropped in debug', (Z, '	if len(allUnique) == 0 && !InternalLog.IsLevelEnabled(logrus.TraceLevel) {\n		return\n	}\n', '	if len(allUnique) == 0 && !InternalLog.IsLevelEnabled(logrus.TraceLevel) {\n		return\n	}\n	if len(allUnique) == 0 {\n		delete(replacementsInit, r.name)\n	}\n')),
 bug('debug keeps its mode', (Z, '		printDebugInfo(r, string(content))\n		if r.parser == nil {', '		printDebugInfo(r, string(content))\n		if r.parser == nil || debugMode {')),
 bug('bad level ends the run', (M, '		errors.Printf("Unable to set logging level for templates: %v", err)\n', '		errors.Printf("Unable to set logging level for templates: %v", err)\n		return 1\n')),
 ok('level kept in a variable', (E, TR, '	tracing := InternalLog.IsLevelEnabled(logrus.TraceLevel)\n	if tracing && !debugMode {\n		InternalLog.Tracef(color.HiBlueString("%T => %s"), node, result)\n	}\n')),
 ok('helper for the level', (E, TR, TR.replace('!debugMode && InternalLog.IsLevelEnabled(logrus.TraceLevel)', 'tracing()')), (E, 'var operators = map', 'func tracing() bool { return !debugMode && InternalLog.IsLevelEnabled(logrus.TraceLevel) }\n\nvar operators = map')),
 ok('guards apart', (Z, PD, '	if r.name == "" {\n		return\n	}\n	if !InternalLog.IsLevelEnabled(logrus.DebugLevel) {\n		return\n	}\n')),
 ok('guards around', (Z, '		printDebugInfo(r, string(content))\n		if', '		if r.name != "" && InternalLog.IsLevelEnabled(logrus.DebugLevel) {\n			printDebugInfo(r, string(content))\n		}\n		if'), (Z, PD, '')),
 ok('mode restored by hand', (Z, '	debugMode = true\n	defer func() { debugMode = false }()\n', '	previous := debugMode\n	debugMode = true\n	defer func() { debugMode = previous }()\n')),
 ok('matches in a helper', (Z, '''	matches := make([]string, 0, len(allUnique)+1)
	if len(allUnique) > 0 {
		matches = append(matches, "")
	}
	for key, count := range allUnique {
		if count > 1 {
			key = fmt.Sprintf("%s (%d)", key, count)
		}
		matches = append(matches, key)
	}
''', '	matches := listMatches(allUnique)\n'), (Z, 'var debugMode bool', '''func listMatches(allUnique map[string]int) []string {
	matches := make([]string, 0, len(allUnique)+1)
	if len(allUnique) > 0 {
		matches = append(matches, "")
	}
	for key, count := range allUnique {
		if count > 1 {
			key = fmt.Sprintf("%s (%d)", key, count)
		}
		matches = append(matches, key)
	}
	return matches
}

var debugMode bool''')),
 ok('content debugged when asked', (Z, '	InternalLog.Debugf("Generated content\\n\\n%s\\n", color.HiCyanString(String(content).AddLineNumber(0).Str()))\n', '	if InternalLog.IsLevelEnabled(logrus.DebugLevel) {\n		numbered := String(content).AddLineNumber(0)\n		InternalLog.Debugf("Generated content\\n\\n%s\\n", color.HiCyanString(numbered.Str()))\n	}\n')),
 ok('levels set in a loop', (M, '''	if err := template.TemplateLog.SetHookLevel("", *templateLogLevel); err != nil {
		errors.Printf("Unable to set logging level for templates: %v", err)
	}
	if err := template.InternalLog.SetHookLevel("", *internalLogLevel); err != nil {
		errors.Printf("Unable to set logging level for internal logs: %v", err)
	}
''', '''	for _, setting := range []struct {
		logger *multilogger.Logger
		level  string
		what   string
	}{{template.TemplateLog, *templateLogLevel, "templates"}, {template.InternalLog, *internalLogLevel, "internal logs"}} {
		if err := setting.logger.SetHookLevel("", setting.level); err != nil {
			errors.Printf("Unable to set logging level for %s: %v", setting.what, err)
		}
	}
''')),
 ok('log function by level', (L, '	f(multicolor.FormatMessage(args...))\n	return ""', '	message := multicolor.FormatMessage(args...)\n	f(message)\n	var nothing string\n	return nothing')),
]
