LH = 'collections/implementation/list_helper.go'
DH = 'collections/implementation/dict_helper.go'
BH = 'collections/implementation/base_helper.go'
HC = 'hcl/utilities.go'
ED = 'template/extra_data.go'
FT = 'template/func_table.go'
ALL = ['C13', 'C14', 'C15', 'C16']
def bug(p, name, *e): return dict(name=name, kind='bug', props=[p], edits=list(e))
def ok(name, *e): return dict(name=name, kind='ok', props=ALL, edits=list(e))
KEYS = '''		keys := make([]string, 0, len(value))
		for key := range value {
			keys = append(keys, key)
		}
		sort.Strings(keys)'''
TRIALS = [
 # C13
 bug('C13', 'reverse in place', (LH, '	target := lh.CreateList(list.Len())\n	for i := range source {\n		target.Set(target.Len()-i-1, source[i])\n	}\n	return lh.ConvertList(target)', '	for i, j := 0, len(source)-1; i < j; i, j = i+1, j-1 {\n		source[i], source[j] = source[j], source[i]\n	}\n	return lh.ConvertList(list)')),
 bug('C13', 'remove empty filters in place', (LH, '		if item != nil {\n			target = target.Append(item)\n		}\n	}\n	return target', '		if item != nil {\n			target = target.Append(item)\n		}\n	}\n	copy(list.AsArray(), target.AsArray())\n	return target')),
 bug('C13', 'negative indexes resolved in place', (LH, '	positions := make([]int, len(indexes))\n', '	positions := indexes\n')),
 bug('C13', 'merge adopts nested dictionary', (DH, '			merged := targetValueDict.Create(targetValueDict.Len())\n			for k, v := range targetValueDict.AsMap() {\n				merged.AsMap()[k] = v\n			}\n			targetMap[key] = dh.deepMerge(merged, sourceValueDict)', '			targetMap[key] = dh.deepMerge(targetValueDict, sourceValueDict)')),
 bug('C13', 'transpose flushes', (DH, '		value := dict.Get(key)\n		if list', '		value := dict.Get(key)\n		dict.Delete(key)\n		if list')),
 bug('C13', 'omit deletes', (ED, '	return dict.Omit(key, otherKeys...)', '	return dict.Flush(append([]interface{}{key}, otherKeys...)...)')),
 # C14
 bug('C14', 'list clone shallow for lists', (LH, '			} else if v, err := lh.TryAsList(value); err == nil {\n				value = v.Clone()\n			}\n', '			}\n')),
 bug('C14', 'dict clone shallow for lists', (DH, 'value = dh.ConvertList(v.Clone())', 'value = dh.ConvertList(v)')),
 bug('C13', 'append on the storage of the list', (LH, '	result := make([]interface{}, 0, len(first)+len(second))\n	result = append(result, first...)\n	return lh.AsList(append(result, second...))', '	return lh.AsList(append(first, second...))')),
 bug('C14', 'append of nothing returns the list', (LH, '	added := make([]interface{}, len(objects))\n', '	if len(objects) == 0 {\n		return list\n	}\n	added := make([]interface{}, len(objects))\n')),
 bug('C14', 'remove nil returns the list', (LH, '	target := list.Create(0, list.Len())\n	for _, item := range list.AsArray() {\n		if item != nil {', '	if !list.Contains(nil) {\n		return list\n	}\n	target := list.Create(0, list.Len())\n	for _, item := range list.AsArray() {\n		if item != nil {')),
 bug('C14', 'dict clone keeps nested when keys given', (DH, '		if value != nil {\n			if v, err := dh.TryAsDictionary', '		if value != nil && len(keys) == dict.Len() {\n			if v, err := dh.TryAsDictionary')),
 # C15
 bug('C15', 'find drops', (LH, '			result = result.Append(i)', '			result.Append(i)')),
 bug('C15', 'unique drops', (LH, '		if !target.Contains(source[i]) {\n			target = target.Append(source[i])', '		if !target.Contains(source[i]) {\n			target.Append(source[i])')),
 bug('C15', 'reverse on a list created empty', (LH, '	target := lh.CreateList(list.Len())\n	for i := range source {\n		target.Set(', '	target := lh.CreateList()\n	for i := range source {\n		target.Set(')),
 # C16
 bug('C16', 'keys unsorted', (DH, 'return keys.Sorted()', 'return keys')),
 bug('C16', 'functions unsorted', (FT, '	sort.Strings(result)\n', '	_ = sort.Strings\n')),
 bug('C16', 'hcl keys unsorted', (HC, '		sort.Strings(keys)\n', '		_ = sort.Strings\n')),
 bug('C16', 'category functions unsorted', ('template/func_category.go', '		sort.Strings(categories[categoryList[i]])\n', '')),
 bug('C16', 'values by counter', (DH, '	for i, key := range dict.KeysAsString() {\n		result.Set(i, dict.Get(key))\n	}', '	i := 0\n	for _, value := range dict.AsMap() {\n		result.Set(i, value)\n		i++\n	}')),
 bug('C16', 'values appended', (DH, '	for i, key := range dict.KeysAsString() {\n		result.Set(i, dict.Get(key))\n	}\n	return result', '	result = dh.CreateList()\n	for _, value := range dict.AsMap() {\n		result = result.Append(value)\n	}\n	return result')),
 bug('C16', 'transpose over the map', (DH, '	for _, key := range dict.GetKeys().AsArray() {\n		value := dict.Get(key)\n		if', '	for key, value := range dict.AsMap() {\n		if')),
 bug('C16', 'razor operators unsorted', ('template/razor_repl_expr.go', '	sort.Strings(sortedOperators)\n', '	_ = sort.Strings\n')),
 bug('C16', 'hcl rendered over the map', (HC, '			for _, key := range keys {\n				rendered := rendered[key]', '			for key, rendered := range rendered {')),
 bug('C16', 'first key of several', (HC, '	if len(m) != 1 {\n		return ""\n	}', '	if len(m) == 0 {\n		return ""\n	}')),
 bug('C16', 'merge under lower case', (DH, '				merged.AsMap()[k] = v', '				merged.AsMap()[str(k).ToLower().Str()] = v')),
 ok('keys collected by a helper, sorted by the caller', (HC, KEYS, '		keys := mapKeys(value)\n		sort.Strings(keys)'), (HC, None, '\nfunc mapKeys(m map[string]interface{}) []string {\n	res := make([]string, len(m))\n	i := 0\n	for k := range m {\n		res[i] = k\n		i++\n	}\n	return res\n}\n')),
 ok('keys sorted by a helper', (HC, KEYS, '		keys := mapKeys(value)'), (HC, None, '\nfunc mapKeys(m map[string]interface{}) (res []string) {\n	for k := range m {\n		res = append(res, k)\n	}\n	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })\n	return res\n}\n')),
 ok('slices.Sorted', (HC, KEYS, '		keys := slices.Sorted(maps.Keys(value))'), (HC, '	"sort"\n', '	"maps"\n	"slices"\n')),
 ok('types by key', (DH, '	for key, value := range dict.AsMap() {\n		result.Set(key, iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name()))\n	}', '	for key := range dict.AsMap() {\n		value := dict.Get(key)\n		name := iif(kind, reflect.TypeOf(value).Kind().String(), reflect.TypeOf(value).Name())\n		result = result.Set(key, name)\n	}')),
 ok('maximum length', (HC, '			if len(key) > keyLen && indent != "" {\n				keyLen = len(key)\n			}', '			if l := len(key); indent != "" && l > keyLen {\n				keyLen = l\n			}')),
 ok('result variable', (BH, '			if NeedConversion(value.MapIndex(keys[i]).Interface(), strict, typeName) {\n				return true\n			}', '			result := NeedConversion(value.MapIndex(keys[i]).Interface(), strict, typeName)\n			if result {\n				return result\n			}')),
 ok('clone helper', (LH, '		if value != nil {\n			if v, err := lh.TryAsDictionary(value); err == nil {\n				value = v.Clone()\n			} else if v, err := lh.TryAsList(value); err == nil {\n				value = v.Clone()\n			}\n		}\n		result.AsArray()[i] = value\n', '		result.AsArray()[i] = lh.cloneValue(value)\n'), (LH, None, '\nfunc (lh ListHelper) cloneValue(value interface{}) interface{} {\n	if value == nil {\n		return nil\n	}\n	if v, err := lh.TryAsDictionary(value); err == nil {\n		return v.Clone()\n	}\n	if v, err := lh.TryAsList(value); err == nil {\n		return v.Clone()\n	}\n	return value\n}\n')),
 ok('clone switch', (DH, '			if v, err := dh.TryAsDictionary(value); err == nil {\n				value = dh.Clone(v, nil)\n			} else if v, err := dh.TryAsList(value); err == nil {\n				value = dh.ConvertList(v.Clone())\n			}', '			d, errDict := dh.TryAsDictionary(value)\n			if errDict == nil {\n				value = dh.Clone(d, nil)\n			} else {\n				l, errList := dh.TryAsList(value)\n				if errList == nil {\n					copied := l.Clone()\n					value = dh.ConvertList(copied)\n				}\n			}')),
 ok('append loops', (LH, '	result := make([]interface{}, 0, len(first)+len(second))\n	result = append(result, first...)\n	return lh.AsList(append(result, second...))', '	result := make([]interface{}, len(first)+len(second))\n	for i := range first {\n		result[i] = first[i]\n	}\n	copy(result[len(first):], second)\n	return lh.AsList(result)')),
 ok('append grown', (LH, '	result := make([]interface{}, 0, len(first)+len(second))\n	result = append(result, first...)\n	return lh.AsList(append(result, second...))', '	var result []interface{}\n	for _, part := range [][]interface{}{first, second} {\n		result = append(result, part...)\n	}\n	return lh.AsList(result)')),
 ok('merge clone helper', (DH, '			merged := targetValueDict.Create(targetValueDict.Len())\n			for k, v := range targetValueDict.AsMap() {\n				merged.AsMap()[k] = v\n			}\n			targetMap[key] = dh.deepMerge(merged, sourceValueDict)', '			targetMap[key] = dh.deepMerge(dh.shallow(targetValueDict), sourceValueDict)'), (DH, None, '\nfunc (dh DictHelper) shallow(d baseIDict) baseIDict {\n	result := d.Create(d.Len())\n	target := result.AsMap()\n	for k, v := range d.AsMap() {\n		target[k] = v\n	}\n	return result\n}\n')),
 ok('merge inverted test', (DH, '		if sourceHasKey && !targetHasKey {\n			targetMap[key] = sourceValue\n			continue\n		}\n', '		if !targetHasKey {\n			if sourceHasKey {\n				targetMap[key] = sourceValue\n				continue\n			}\n		}\n')),
 ok('unique with a loop over values', (LH, '	for i := range source {\n		if !target.Contains(source[i]) {\n			target = target.Append(source[i])\n		}\n	}\n	return target\n}\n\n// Intersect', '	for _, item := range source {\n		if target.Contains(item) {\n			continue\n		}\n		target = target.Append(item)\n	}\n	return target\n}\n\n// Intersect')),
 ok('reverse by append', (LH, '	target := lh.CreateList(list.Len())\n	for i := range source {\n		target.Set(target.Len()-i-1, source[i])\n	}\n', '	target := lh.CreateList(0, list.Len())\n	for i := len(source) - 1; i >= 0; i-- {\n		target = target.Append(source[i])\n	}\n')),
 ok('filter helper', (LH, '	target := list.Create(0, list.Len())\n	for _, item := range list.AsArray() {\n		if item != nil {\n			target = target.Append(item)\n		}\n	}\n	return target', '	return filterList(list, func(item interface{}) bool { return item != nil })'), (LH, None, '\nfunc filterList(list baseIList, keep func(interface{}) bool) baseIList {\n	target := list.Create(0, list.Len())\n	for _, item := range list.AsArray() {\n		if keep(item) {\n			target = target.Append(item)\n		}\n	}\n	return target\n}\n')),
 ok('set helper variable', (LH, '	for list.Len() <= index {\n		list = lh.Add(list, false, nil)\n	}\n	list.AsArray()[index] = lh.Convert(value)\n	return list, nil', '	target := list\n	for target.Len() <= index {\n		target = lh.Add(target, false, nil)\n	}\n	storage := target.AsArray()\n	storage[index] = lh.Convert(value)\n	return target, nil')),
]
