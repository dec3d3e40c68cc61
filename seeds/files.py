H = 'template/template_handler.go'
SEEDS = [
 dict(id='s01-remove-after-failed-write', property='C01', needs='overwriting in place while the destination cannot be written (a folder of that name exists)', breaks='the template is removed although its result was never saved',
  edits=[(H, '	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {\n		return\n	}\n', '	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {\n		InternalLog.Error(err)\n	}\n')],
  demo='mkdir a.txt; echo "{{ add 1 2 }}" > a.txt.gt\n"$tmp/gt" -o a.txt.gt >/dev/null 2>&1\n[ -f a.txt.gt ]\n'),
 dict(id='s02-shebang-print-ignored', property='C02', needs='a file whose first line turns printing on while it is rendered', breaks='the result of such a file is written to disk (and the source set aside) instead of printed only',
  edits=[(H, '	isCode := t.IsCode(template)\n', '	isCode := t.IsCode(template)\n	printOnly := t.options[OutputStdout]\n'), (H, '	if t.options[OutputStdout] {\n		err = t.print', '	if printOnly {\n		err = t.print')],
  demo='printf "#! /usr/bin/env gotemplate\\n{{ add 1 2 }}\\n" > a.txt\n"$tmp/gt" a.txt >/dev/null 2>&1\n[ "$(ls)" = a.txt ]\n'),
 dict(id='s03-missing-file-stops-batch', property='C04', needs='a list of files whose first one has disappeared', breaks='the files after a missing one are not processed',
  edits=[(H, '			errors = append(errors, err)\n', '			errors = append(errors, err)\n			if os.IsNotExist(err) {\n				// The folder is changing under us\n				return resultFiles, errors.AsError()\n			}\n')],
  demo='echo "{{ add 1 2 }}" > b.gt.txt; cp b.gt.txt c.txt\n"$tmp/gt" missing.txt c.txt >/dev/null 2>&1\n[ -f c.txt.original ]\n'),
 dict(id='s04-failure-hidden-by-success', property='C05', needs='two files, the first of which fails while the second is processed', breaks='the command ends with status 0 although a file failed',
  edits=[('main.go', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		exitCode = 1\n	}', '	resultFiles, err := t.ProcessTemplates(*sourceFolder, *targetFolder, *templates...)\n	if err != nil {\n		errors.Print(err)\n		if len(resultFiles) == 0 {\n			exitCode = 1\n		}\n	}')],
  demo='echo "{{ add 1 2 }}" > c.txt\n"$tmp/gt" missing.txt c.txt >/dev/null 2>&1\n[ $? -ne 0 ]\n'),
 dict(id='s05-empty-result-error', property='C03', needs='a strict template that fails on a retry and still yields a partial text', breaks='the partial text of a failed rendering is saved as the result',
  edits=[(H, '	result, changed, err := t.processContentInternal(content, template, nil, 0, true, handler)\n	if err != nil {\n		return\n	}\n', '	result, changed, err := t.processContentInternal(content, template, nil, 0, true, handler)\n	if err != nil && (isCode || strings.TrimSpace(result) == "") {\n		return\n	}\n')],
  demo='printf "hello {{ add 1 2 }}\\n{{ fail \\"x\\" }}\\nworld\\n" > a.txt.gt\n"$tmp/gt" a.txt.gt >/dev/null 2>&1\n[ "$(ls)" = a.txt.gt ]\n'),
]
