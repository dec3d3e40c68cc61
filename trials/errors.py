T='template/template_handler.go'; R='template/extra_runtime.go'; TP='template/template_process.go'; TF='utils/terraform.go'; OS='template/extra_os.go'; X='utils/exec.go'; N='template/extra_net.go'
def bug(name, *edits, props=['C06']): return dict(kind='bug', name='C06 bug: '+name, props=props, edits=list(edits))
def ok(name, *edits, props=['C06']): return dict(kind='ok', name='C06 ok: '+name, props=props, edits=list(edits))
TRIALS = [
 bug('save ignores the failure', (OS, 'return "", os.WriteFile(filename, object.([]byte), 0644)', 'os.WriteFile(filename, object.([]byte), 0644)\n\treturn "", nil')),
 bug('save ignores mkdir', (OS, 'if err = os.Mkdir(folder, 0777); err != nil {\n\t\t\treturn "", err\n\t\t}', 'os.Mkdir(folder, 0777)')),
 bug('print write overwritten', (TP, 'err = os.WriteFile(tempFile, []byte(result), 0644)\n\t\tif err != nil {\n\t\t\treturn\n\t\t}', 'err = os.WriteFile(tempFile, []byte(result), 0644)')),
 bug('failed command logged only', (R, 'err = fmt.Errorf("error %w: %s", err, stderr.String())', 'InternalLog.Errorln(stderr.String())\n\t\terr = nil')),
 bug('command output kept, failure lost', (R, '''	if err = cmd.Run(); err == nil {
		result = stdout.String()
		InternalLog.Print(stderr.String())
	} else {
		err = fmt.Errorf("error %w: %s", err, stderr.String())
	}
	return''', '''	if runErr := cmd.Run(); runErr == nil {
		InternalLog.Print(stderr.String())
	}
	result = stdout.String()
	return''')),
 bug('terraform failure skipped', (TF, '''		if output, err := cmd.CombinedOutput(); err != nil {
			errs = append(errs, fmt.Errorf("%w: %s", err, strings.TrimSpace(string(output))))
			continue''', '''		if output, err := cmd.CombinedOutput(); err != nil {
			if len(output) > 0 {
				errs = append(errs, fmt.Errorf("%w: %s", err, strings.TrimSpace(string(output))))
			}
			continue''')),
 bug('rename failure ignored', (T, 'if err = os.Rename(template, newName); err != nil {\n\t\t\treturn\n\t\t}', 'err = os.Rename(template, newName)')),
 bug('write shadowed', (T, 'if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {\n\t\treturn\n\t}', 'if err := os.WriteFile(resultFile, []byte(result), mode); err != nil {\n\t\treturn resultFile, nil\n\t}')),
 bug('nested evaluation gives its partial text', (R, 'content, _, err := t.runTemplate(source, context...)\n\treturn content, err', 'content, _, err := t.runTemplate(source, context...)\n\tif err != nil && content != "" {\n\t\treturn content, nil\n\t}\n\treturn content, err')),
 bug('script not written completely', (X, 'if _, err = temp.WriteString(content); err != nil {\n\t\treturn\n\t}', 'temp.WriteString(content)')),
 bug('parse error treated as text', (R, '''		if e != nil {
			err = e
			return
		}
		internalTemplate = inline''', '''		if e != nil {
			return source, "", nil
		}
		internalTemplate = inline''')),
 bug('document of a failed download', (N, 'if err != nil {\n\t\treturn response, err\n\t}', 'if err != nil {\n\t\treturn nil, nil\n\t}')),
 ok('writing extracted', (T, '''	if err = os.WriteFile(resultFile, []byte(result), mode); err != nil {
		return
	}
''', '''	if err = writeResult(resultFile, result, mode); err != nil {
		return
	}
'''), (T, None, '''
func writeResult(name, text string, mode os.FileMode) error {
	if err := os.WriteFile(name, []byte(text), mode); err != nil {
		return err
	}
	return nil
}
''')),
 ok('command run extracted', (R, '''	var stdout, stderr bytes.Buffer
	cmd.Stdin = os.Stdin
	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	cmd.Dir = t.folder
	InternalLog.Infoln("Launching", cmd.Args, "in", cmd.Dir)

	if err = cmd.Run(); err == nil {
		result = stdout.String()
		InternalLog.Print(stderr.String())
	} else {
		err = fmt.Errorf("error %w: %s", err, stderr.String())
	}
	return''', '''	cmd.Dir = t.folder
	out, runErr := launch(cmd)
	if runErr != nil {
		return nil, runErr
	}
	return out, nil'''), (R, None, '''
func launch(cmd *exec.Cmd) (string, error) {
	var stdout, stderr bytes.Buffer
	cmd.Stdin = os.Stdin
	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	InternalLog.Infoln("Launching", cmd.Args, "in", cmd.Dir)
	if failure := cmd.Run(); failure != nil {
		return "", fmt.Errorf("error %w: %s", failure, stderr.String())
	}
	InternalLog.Print(stderr.String())
	return stdout.String(), nil
}
''')),
 ok('terraform failures recorded by a closure', (TF, '''		if output, err := cmd.CombinedOutput(); err != nil {
			errs = append(errs, fmt.Errorf("%w: %s", err, strings.TrimSpace(string(output))))
			continue
		}
''', '''		output, err := cmd.CombinedOutput()
		failed := err != nil
		if failed {
			report(err, string(output))
			continue
		}
'''), (TF, '''	folders := make(''', '''	report := func(err error, text string) {
		errs = append(errs, fmt.Errorf("%w: %s", err, strings.TrimSpace(text)))
	}
	folders := make(''')),
 ok('save in two steps', (OS, 'return "", os.WriteFile(filename, object.([]byte), 0644)', 'err := os.WriteFile(filename, object.([]byte), 0644)\n\tif err == nil {\n\t\treturn "", nil\n\t}\n\treturn "", err')),
 ok('include reordered', (R, '''	content, _, err := t.runTemplate(collections.Interface2string(source), context...)
	if source == content {
		return nil, fmt.Errorf("unable to find a template or a file named %s", source)
	}
	return content, err''', '''	content, _, err := t.runTemplate(collections.Interface2string(source), context...)
	switch {
	case source == content:
		return nil, fmt.Errorf("unable to find a template or a file named %s", source)
	default:
		return content, err
	}''')),
 ok('print, else chain', (TP, '''		err = os.WriteFile(tempFile, []byte(result), 0644)
		if err != nil {
			return
		}
		err = utils.TerraformFormat(tempFile)
''', '''		if err = os.WriteFile(tempFile, []byte(result), 0644); err == nil {
			err = utils.TerraformFormat(tempFile)
		} else {
			return err
		}
''')),
 ok('inline parse wrapped', (R, '''		inline, e := t.New("inline").Parse(source)
		if e != nil {
			err = e
			return
		}
		internalTemplate = inline''', '''		if internalTemplate, err = t.New("inline").Parse(source); err != nil {
			return
		}''')),
 ok('temp script with close in one place', (X, '''	if errClose := temp.Close(); err == nil {
		err = errClose
	}
	if err != nil {
		return
	}
	cmd, err''', '''	errClose := temp.Close()
	if err != nil {
		return nil, fileName, err
	}
	if errClose != nil {
		return nil, fileName, errClose
	}
	cmd, err''')),
]
