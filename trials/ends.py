S='collections/string.go'; B='collections/implementation/base_helper.go'; LH='collections/implementation/list_helper.go'; DH='collections/implementation/dict_helper.go'
C='collections/convert_data.go'; HU='hcl/utilities.go'; F='utils/files.go'; MU='template/math_utilities.go'; R='template/extra_runtime.go'; EH='template/template_error_handler.go'
X='template/razor_repl_expr.go'; E='template/razor_expr.go'; TS='template/slice.go'; TH='template/template_handler.go'; DA='template/extra_data.go'
import os
if os.path.exists('/repo/utils'):
    import subprocess
    F=subprocess.run('grep -rl "func FindFilesMaxDepth" /repo --include=*.go',shell=True,capture_output=True,text=True).stdout.strip().replace('/repo/','')
def bug(name, *edits): return dict(kind='bug', name='end bug: '+name, props=['C26'], edits=list(edits))
def ok(name, *edits): return dict(kind='ok', name='end ok: '+name, props=['C26'], edits=list(edits))
IA='''	start, lenSubstr := 0, len(substr)
	for pos := s.Index(substr); pos >= 0; pos = s[start:].Index(substr) {
		result = append(result, start+pos)
		start += pos + lenSubstr
	}
	return
'''
GW='''	for begin >= 0 && !isBreak(rune(s[begin])) {
		begin--
	}
	for end < len(s) && !isBreak(rune(s[end])) {
		end++
	}
'''
SI='''	for list.Len() <= index {
		list = lh.Add(list, false, nil)
	}
'''
PA='''	for !local && t.parent != nil {
		// local specifies if the alias should be executed in the context of the template where it is
		// defined or in the context of the top parent
		t = t.parent
	}
'''
TR=' && t.Try < maxTries'
NC='''		for i := 0; i < value.Len(); i++ {
			if NeedConversion(value.Index(i).Interface(), strict, typeName) {
				return true
			}
		}
'''
NCM='''			if NeedConversion(value.MapIndex(keys[i]).Interface(), strict, typeName) {
				return true
			}
'''
FL='''		for key := range value {
			value[key] = flatten(value[key])
		}
'''
WK='''				if !visited[link] {
'''
OPT='''			return optimizedRunTemplate(t, true, source, args...)
'''
TRIALS = [
 bug('IndexAll stays', (S, '		start += pos + lenSubstr\n', '		start += pos + lenSubstr/2\n')),
 bug('IndexAll of nothing', (S, 'if substr == "" || s == "" {', 'if s == "" {')),
 bug('IndexAll trimmed', (S, IA, IA.replace('start, lenSubstr := 0, len(substr)', 'start, lenSubstr := 0, len(strings.TrimSpace(substr))'))),
 bug('word begin stays', (S, GW, GW.replace('		begin--\n', '		if begin > 0 {\n			begin--\n		}\n'))),
 bug('Protect goes on', (S, '				s = s[end+1:]\n				break\n', '				if end < len(s)-1 {\n					s = s[end+1:]\n				}\n				break\n')),
 bug('Protect finds the same quote', (S, '				end += newEnd - pos\n', '				end += newEnd - pos - 1\n')),
 bug('list not enlarged', (LH, SI, SI.replace('list = lh.Add(list, false, nil)', 'if value == nil {\n			continue\n		}\n		list = lh.Add(list, false, nil)'))),
 bug('list enlarged with values', (LH, SI, '	if index >= list.Len() {\n		list = lh.Add(list, false, nil)\n		return lh.SetIndex(lh.ConvertList(list), list.Len(), value)\n	}\n')),
 bug('parent of its own', (R, PA, PA.replace('		t = t.parent\n', '		if t.parent.name() != t.name() {\n			t = t.parent\n		}\n').replace('t.parent.name() != t.name()', 't.parent.Name() != t.Name()'))),
 bug('tries without limit', (EH, TR, '')),
 bug('tries not counted', (EH, 't.Try+1,', 't.Try,')),
 bug('step too small', (MU, 'forward && !(current > previous)', 'forward && !(current >= previous)')),
 bug('step too small backwards', (MU, '(forward && !(current > previous) || !forward && !(current < previous))', '!forward && !(current < previous)')),
 bug('links seen again', (F, '		visited[folder] = true\n', '		visited[folder] = !followLinks\n')),
 bug('link marked under another name', (F, '		visited[folder] = true\n', '		visited[filepath.Base(folder)] = true\n')),
 bug('links not looked up', (F, WK, '				if !visited[filepath.Base(link)] {\n')),
 bug('conversion of itself', (B, NCM, NCM.replace('NeedConversion(value.MapIndex(keys[i]).Interface(), strict', 'NeedConversion(iif(keys[i].IsZero(), object, value.MapIndex(keys[i]).Interface()), strict'))),
 bug('conversion of keys', (B, 'case reflect.Slice, reflect.Array:\n		if list, ok := object.(baseIList); !ok || strict', 'case reflect.Ptr:\n		return NeedConversion(object, false, typeName)\n	case reflect.Slice, reflect.Array:\n		if list, ok := object.(baseIList); !ok || strict')),
 bug('clone of the dictionary', (DH, 'value = dh.Clone(v, nil)', 'if v.Len() == 0 {\n					v = dict\n				}\n				value = dh.Clone(v, nil)')),
 bug('flatten again', (HU, '			source = flatten(value[0])\n', '			source = flatten(source)\n')),
 bug('simplified without an equal', (C, '''		if strings.Count(data, "=") == 0 {
			return fmt.Errorf("not reducible")
		}
''', '')),
 bug('equal sign left', (C, '''ReplaceAllString(data, ":")''', '''ReplaceAllString(data, "= ")''')),
 bug('template run again', (R, OPT, '			return optimizedRunTemplate(t, withClone, source, args...)\n')),
 bug('indexes again', (LH, 'result.Set(i, lh.GetIndexes(list, indexes[i]))', 'result.Set(i, lh.GetIndexes(list, indexes[:i+1]...))')),
 bug('parentheses kept', (E, 'if content, err = nodeValue(n.X); err == nil {', 'if content, err = nodeValue(n); err == nil {')),
 bug('selection again', (X, 'selectExpr, err = expressionParserInternal(repl.subExpression(), selectExpr, true, true)', 'selectExpr, err = expressionParserInternal(repl, match, true, true)')),
 bug('repeat keeps the count', (DA.replace('extra_data','extra_utils'), '''	for i := 0; i < n; i++ {
		result.Set(i, a)
	}
''', '''	for i := 0; i < n; {
		result.Set(i, a)
		if a != nil {
			i++
		}
	}
''')),
 ok('IndexAll with a break', (S, IA, '''	for start := 0; ; {
		pos := s[start:].Index(substr)
		if pos < 0 {
			break
		}
		result = append(result, start+pos)
		start += pos + len(substr)
	}
	return
''')),
 ok('IndexAll on the rest', (S, IA, '''	base := 0
	for rest := s; ; {
		pos := rest.Index(substr)
		if pos < 0 {
			return
		}
		result = append(result, base+pos)
		base += pos + len(substr)
		rest = rest[pos+len(substr):]
	}
''')),
 ok('word search in helpers', (S, GW, '''	begin, end = wordBegin(s, begin, isBreak), wordEnd(s, end, isBreak)
'''), (S, '// SelectWord returns', '''func wordBegin(s String, pos int, isBreak func(rune) bool) int {
	for pos >= 0 && !isBreak(rune(s[pos])) {
		pos--
	}
	return pos
}

func wordEnd(s String, pos int, isBreak func(rune) bool) int {
	for ; pos < len(s); pos++ {
		if isBreak(rune(s[pos])) {
			break
		}
	}
	return pos
}

// SelectWord returns''')),
 ok('word loops as for-break', (S, GW, '''	for {
		if begin < 0 || isBreak(rune(s[begin])) {
			break
		}
		begin--
	}
	for ; end < len(s) && !isBreak(rune(s[end])); end++ {
	}
''')),
 ok('list enlarged by count', (LH, SI, '''	for missing := index + 1 - list.Len(); missing > 0; missing-- {
		list = lh.Add(list, false, nil)
	}
''')),
 ok('list enlarged at once', (LH, SI, '''	if missing := index + 1 - list.Len(); missing > 0 {
		list = lh.Add(list, false, make([]interface{}, missing)...)
	}
''')),
 ok('parents with a break', (R, PA, '''	if !local {
		for {
			if t.parent == nil {
				break
			}
			t = t.parent
		}
	}
''')),
 ok('parents with a helper', (R, PA, '''	if !local {
		t = t.topParent()
	}
'''), (R, '// Define alias to an existing command\n', '''func (t *Template) topParent() *Template {
	if t.parent == nil {
		return t
	}
	return t.parent.topParent()
}

// Define alias to an existing command
''')),
 ok('tries stopped first', (EH, 'if lines[faultyLine] != currentLine.Str() && t.Try < maxTries {', 'if next := t.Try + 1; lines[faultyLine] != currentLine.Str() && next <= maxTries {'), (EH, 't.Try+1,', 'next,')),
 ok('tries in a helper', (EH, TR, ' && t.mayRetry()'), (EH, '// Handler returns', 'func (t errorHandler) mayRetry() bool { return t.Try < maxTries }\n\n// Handler returns') if 0 else (EH, 'const maxTries = 1000\n', 'const maxTries = 1000\n\nfunc (t errorHandler) mayRetry() bool { return t.Try < maxTries }\n')),
 ok('step of zero in the switch', (MU, '''	if step == 0 {
		return nil, fmt.Errorf("step cannot be zero")
	}
''', '''	switch step {
	case 0:
		return nil, fmt.Errorf("step cannot be zero")
	}
''')),
 ok('links guarded first', (F, WK, '				if visited[link] {\n					return nil\n				}\n				{\n')),
 ok('links marked by the caller', (F, WK, '				if !visited[link] {\n					visited[link] = true\n')),
 ok('conversion with a range', (B, '''		for i := range keys {
'''+NCM, '''		for _, key := range keys {
'''+NCM.replace('keys[i]', 'key'))),
 ok('conversion in a helper', (B, NC, '''		return anyNeedsConversion(value, strict, typeName)
'''), (B, 'var (\n	needConversionImpl', '''func anyNeedsConversion(value reflect.Value, strict bool, typeName string) bool {
	for i := value.Len() - 1; i >= 0; i-- {
		if NeedConversion(value.Index(i).Interface(), strict, typeName) {
			return true
		}
	}
	return false
}

var (
	needConversionImpl''')),
 ok('clone of a value in a helper', (LH, '''			if v, err := lh.TryAsDictionary(value); err == nil {
				value = v.Clone()
			} else if v, err := lh.TryAsList(value); err == nil {
				value = v.Clone()
			}
''', '			value = lh.cloneValue(value)\n'), (LH, '// GetStringArray', '''func (lh ListHelper) cloneValue(value interface{}) interface{} {
	if v, err := lh.TryAsDictionary(value); err == nil {
		return v.Clone()
	} else if v, err := lh.TryAsList(value); err == nil {
		return v.Clone()
	}
	return value
}

// GetStringArray''')),
 ok('flatten the element', (HU, '			source = flatten(value[0])\n', '			first := value[0]\n			source = flatten(first)\n')),
 ok('flatten through a helper', (HU, FL, '		flattenMap(value)\n'), (HU, 'func transform(out', '''func flattenMap(value map[string]interface{}) {
	for key, element := range value {
		value[key] = flatten(element)
	}
}

func transform(out''')),
 ok('equal tested with Contains', (C, 'strings.Count(data, "=") == 0', '!strings.Contains(data, "=")')),
 ok('equal tested around', (C, '''		if strings.Count(data, "=") == 0 {
			return fmt.Errorf("not reducible")
		}
''', '''		if !reducible(data) {
			return fmt.Errorf("not reducible")
		}
'''), (C, 'func ConvertData(', 'func reducible(data string) bool { return strings.Contains(data, "=") }\n\nfunc ConvertData(') if 0 else (C, 'type tagInfo struct', 'func reducible(data string) bool { return strings.Contains(data, "=") }\n\ntype tagInfo struct')),
 ok('template run again by a loop', (R, OPT, '			result, filename, err = optimizedRunTemplate(t, true, source, args...)\n			return\n')),
 ok('template run tested otherwise', (R, '		if !withClone {\n			InternalLog.Debug(', '		if withClone == false {\n			InternalLog.Debug(')),
 ok('indexes through a helper', (LH, '		result.Set(i, lh.GetIndexes(list, indexes[i]))\n', '		index := indexes[i]\n		result.Set(i, lh.GetIndexes(list, index))\n')),
 ok('index list of one', (LH, '	case 1:\n		index := indexes[0]\n', '	case 1:\n		return lh.getIndex(list, indexes[0])\n	}\n	result := list.Create(len(indexes))\n	for i, index := range indexes {\n		result.Set(i, lh.getIndex(list, index))\n	}\n	return result\n}\n\nfunc (lh ListHelper) getIndex(list baseIList, index int) interface{} {\n'), (LH, '''		return (list.AsArray())[index]
	}
	result := list.Create(len(indexes))
	for i := range indexes {
		result.Set(i, lh.GetIndexes(list, indexes[i]))
	}
	return result
}
''', '		return (list.AsArray())[index]\n}\n')),
 ok('parentheses in a loop', (E, '	switch n := node.(type) {\n	case *ast.UnaryExpr:\n		var op, x', '	for {\n		paren, ok := node.(*ast.ParenExpr)\n		if !ok {\n			break\n		}\n		node = paren.X\n	}\n	switch n := node.(type) {\n	case *ast.UnaryExpr:\n		var op, x')),
 ok('arguments in a helper', (E, '''			args := make([]string, len(n.Args))
			for i := range n.Args {
				s, err := nodeValueInternal(n.Args[i])
				if err != nil {
					return "", err
				}
				args[i] = s
			}
''', '''			args, err := nodeValues(n.Args)
			if err != nil {
				return "", err
			}
'''), (E, 'func nodeValueInternal(', '''func nodeValues(nodes []ast.Expr) (result []string, err error) {
	result = make([]string, 0, len(nodes))
	for _, node := range nodes {
		s, err := nodeValueInternal(node)
		if err != nil {
			return nil, err
		}
		result = append(result, s)
	}
	return
}

func nodeValueInternal(''')),
 ok('reverse until they meet', (TS, 'i < len(r)/2; i, j = i+1, j-1 {', 'i < j; i, j = i+1, j-1 {')),
 ok('pairs by two', (DA, '''	for i := 0; i < len(v); i += 2 {
		result.Set(v[i], v[i+1])
	}
''', '''	for ; len(v) > 1; v = v[2:] {
		result.Set(v[0], v[1])
	}
''')),
 ok('deep merge of copies', (DH, '			targetMap[key] = dh.deepMerge(merged, sourceValueDict)\n', '			targetMap[key] = dh.mergeValues(merged, sourceValueDict)\n'), (DH, 'func (dh DictHelper) deepMerge(', 'func (dh DictHelper) mergeValues(target, source baseIDict) baseIDict { return dh.deepMerge(target, source) }\n\nfunc (dh DictHelper) deepMerge(')),
]
