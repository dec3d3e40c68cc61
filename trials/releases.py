M='main.go'; U='utilities.go'; N='template/extra_net.go'; X='utils/exec.go'; R='template/extra_runtime.go'; P='template/template_process.go'
def bug(name, *edits): return dict(kind='bug', name='release bug: '+name, props=['C24'], edits=list(edits))
def ok(name, *edits): return dict(kind='ok', name='release ok: '+name, props=['C24','C06','C05','C02'], edits=list(edits))
RM='''		if tempFile != "" {
			defer func() { os.Remove(tempFile) }()
		}
'''
TRIALS = [
 bug('body left open', (N, '	defer response.Body.Close()\n', '')),
 bug('body closed on success only', (N, '	defer response.Body.Close()\n	return goquery.NewDocumentFromReader(response.Body)\n', '''	document, err := goquery.NewDocumentFromReader(response.Body)
	if err != nil {
		return nil, err
	}
	response.Body.Close()
	return document, nil
''')),
 bug('script kept', (R, RM, '		_ = tempFile\n')),
 bug('script kept on failure', (R, RM, '		if err != nil {\n			return\n		}\n'+RM)),
 bug('script kept when it fails', (R, RM, '		if tempFile != "" {\n			defer func() {\n				if err == nil {\n					os.Remove(tempFile)\n				}\n			}()\n		}\n')),
 bug('script removed at the end', (R, RM, ''), (R, '		cmd, tempFile, err = utils.GetCommandFromString(command, args...)\n', '		cmd, tempFile, err = utils.GetCommandFromString(command, args...)\n		filename = tempFile\n'), (R, '''		result = stdout.String()
		InternalLog.Print''', '''		if filename != "" {
			os.Remove(filename)
		}
		result = stdout.String()
		InternalLog.Print''')),
 bug('not closed on write error', (X, '''	_, err = temp.WriteString(content)
	if errClose''', '''	if _, err = temp.WriteString(content); err != nil {
		return
	}
	if errClose''')),
 bug('name not given back', (X, '	fileName = temp.Name()\n\n	if len', '	if len'), (X, '	cmd, err = GetCommandFromFile(fileName)\n', '	if cmd, err = GetCommandFromFile(temp.Name()); err == nil {\n		fileName = temp.Name()\n	}\n')),
 bug('name dropped by the caller', (X, '''		if cmd, tempFile, err = saveTempFile(fmt.Sprintf("#! %s\\n%s", getDefaultShell(), command), args...); err != nil {
			return
		}
''', '''		if cmd, tempFile, err = saveTempFile(fmt.Sprintf("#! %s\\n%s", getDefaultShell(), command), args...); err != nil {
			return nil, "", err
		}
''')),
 bug('folder kept', (P, '		defer os.RemoveAll(tempFolder)\n', '')),
 bug('folder kept when not written', (P, '		defer os.RemoveAll(tempFolder)\n', ''), (P, '		result = string(bytes)\n', '		result = string(bytes)\n		os.RemoveAll(tempFolder)\n')),
 bug('program folder kept', (U, '	os.RemoveAll(tempFolder)\n\n', '')),
 bug('cleanup only after a panic', (M, '			exitCode = -1\n		}\n		cleanup()\n', '			exitCode = -1\n			cleanup()\n		}\n')),
 bug('exit from the version', (M, '		fmt.Println(version)\n		return 0\n', '		fmt.Println(version)\n		os.Exit(0)\n')),
 ok('closed by a function', (N, '	defer response.Body.Close()\n', '	defer closeBody(response)\n'), (N, None, '\nfunc closeBody(response *http.Response) {\n	if response == nil || response.Body == nil {\n		return\n	}\n	response.Body.Close()\n}\n')),
 ok('closed in a deferred function', (N, '	defer response.Body.Close()\n', '	defer func() { _ = response.Body.Close() }()\n')),
 ok('body variable', (N, '	defer response.Body.Close()\n	return goquery.NewDocumentFromReader(response.Body)\n', '	body := response.Body\n	defer body.Close()\n	return goquery.NewDocumentFromReader(body)\n')),
 ok('removed by a helper', (R, RM, '		defer removeScript(tempFile)\n'), (R, None, '\nfunc removeScript(file string) {\n	if file != "" {\n		os.Remove(file)\n	}\n}\n')),
 ok('removed directly', (R, RM, '		if tempFile != "" {\n			defer os.Remove(tempFile)\n		}\n')),
 ok('command helper', (R, '''	var cmd *exec.Cmd
	if filename != "" {
		cmd, err = utils.GetCommandFromFile(filename, args...)
	} else {
		var tempFile string
		cmd, tempFile, err = utils.GetCommandFromString(command, args...)
'''+RM+'''	}
''', '''	cmd, tempFile, err := getCommand(command, filename, args...)
'''+RM.replace('\t\t','\t')), (R, None, '''
func getCommand(command, filename string, args ...interface{}) (*exec.Cmd, string, error) {
	if filename != "" {
		cmd, err := utils.GetCommandFromFile(filename, args...)
		return cmd, "", err
	}
	return utils.GetCommandFromString(command, args...)
}
''')),
 ok('written at once', (X, '''	_, err = temp.WriteString(content)
	if errClose := temp.Close(); err == nil {
		err = errClose
	}
	if err != nil {
		return
	}
''', '''	if _, err = temp.WriteString(content); err != nil {
		temp.Close()
		return
	}
	if err = temp.Close(); err != nil {
		return
	}
''')),
 ok('format in its own function', (P, '''		var tempFolder string
		if tempFolder, err = os.MkdirTemp(t.tempFolder, base); err != nil {
			return
		}
		defer os.RemoveAll(tempFolder)
''', '''		tempFolder, errFolder := t.newTempFolder(base)
		if errFolder != nil {
			return errFolder
		}
		defer os.RemoveAll(tempFolder)
'''), (P, None, '''
func (t *Template) newTempFolder(base string) (string, error) {
	folder, err := os.MkdirTemp(t.tempFolder, base)
	if err != nil {
		return "", err
	}
	InternalLog.Debugln("Using", folder)
	return folder, nil
}
''')),
 ok('usage returns', (M, '			kingpin.Usage()\n			cleanup()\n			os.Exit(0)\n', '			kingpin.Usage()\n			return 0\n')),
 dict(kind='bug', name='release bug: removal deferred in main, which catches the panic', props=['C25','C05'], edits=[(M, '			exitCode = -1\n		}\n		cleanup()\n	}()\n', '			exitCode = -1\n		}\n	}()\n	defer cleanup()\n')]),
]
