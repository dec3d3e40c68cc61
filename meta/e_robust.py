P = [
 dict(id='C06', title='Failures of writes, commands, downloads and evaluations are not swallowed',
  statement='An operation that writes a file, runs a command, downloads a document, or compiles or evaluates a template, and fails, makes the functions that called it fail, or at least has its error reported: on no path that ends normally is such an error dropped, replaced by success, or overwritten before it was looked at. A retry, another error replacing it, or a result recognised as valid count as answers.',
  quantifier=dict(over=['faults', 'inputs', 'histories'], text='every failure of every such operation, in every state the function can be in'),
  why_tests_cant='Tests do not make the disk full, a file unwritable, a command missing or a download break at each of the operations, one after the other.',
  anchors=dict(files=['template/template_handler.go', 'template/extra_runtime.go', 'template/extra_os.go', 'template/extra_net.go', 'utils/files.go', 'utils/exec.go', 'main.go'],
    mechanism=[dict(name='errors of the rendering', where='template/template_handler.go (ProcessTemplates, processTemplate, processContentInternal)'), dict(name='commands and included templates', where='template/extra_runtime.go (exec, runCommand, runTemplate)'), dict(name='backups and copies', where='utils/files.go (CopyFile, moveAndReplace)')],
    observe_at='error returned, messages logged, exit status'),
  technique='interprocedural error-flow analysis on the SSA form: every error of a significant operation is followed on every path to a use that lets it out',
  level_note='Reads, lookups and conversions are not operations of this list: their failure legitimately selects another interpretation of an argument. Errors of closing, removing temporary files and printing on the standard output are not in the list. An error tested before being dropped must be replaced by another error or answered by a retry.'),
 dict(id='C22', title='State shared by templates is only used under its lock',
  statement='Package variables changed after initialisation (caches, counters, settings, tables of functions), and what they hold, are read and changed under one common lock, so templates evaluated concurrently, by go routines of a program or by the options of one, do not corrupt or exchange their data.',
  quantifier=dict(over=['schedules', 'histories'], text='every interleaving of any number of evaluations'),
  why_tests_cant='The tests render one template at a time; a race shows only in particular interleavings.',
  anchors=dict(files=['template/razor.go', 'template/add_funcs.go', 'utils/exec.go', 'collections/dictionary.go', 'collections/generic_list.go'],
    mechanism=[dict(name='razorMutex', where='template/razor.go'), dict(name='addFuncMutex and the function tables', where='template/add_funcs.go'), dict(name='defaultShellMutex', where='utils/exec.go'), dict(name='current helpers', where='collections/dictionary.go, collections/generic_list.go')], observe_at='results of concurrent evaluations; race detector'),
  technique='interprocedural lockset analysis: package variables changed after initialisation, and the locks certainly held at each access of them',
  level_note='State of a value given by the caller (a context, a template used by two go routines) belongs to the caller. The variables found, and their locks, are listed in the evidence.'),
 dict(id='C23', title='Locks are always released and never taken twice',
  statement='A lock taken by a function is released on every path out of it, panics caught above included; no lock is taken by a go routine that already holds it (also through templates including templates), none is released when not held, and no two locks are taken in opposite orders. So a rendering never hangs on a lock.',
  quantifier=dict(over=['schedules', 'inputs', 'faults'], text='every path through every function taking a lock, every nesting of calls, errors and panics included'),
  why_tests_cant='A lock left locked, or taken again, shows as a hang only after a particular failure or nesting.',
  anchors=dict(files=['template/template_handler.go', 'template/add_funcs.go', 'template/razor.go', 'utils/exec.go', 'collections/dictionary.go', 'collections/generic_list.go'], mechanism=[dict(name='templateMutex and addFuncMutex', where='template/template_handler.go, template/func_table.go'), dict(name='razorMutex', where='template/razor.go'), dict(name='defaultShellMutex', where='utils/exec.go')], observe_at='termination of evaluations'),
  technique='interprocedural lock-state (typestate) and lock-order analysis on the SSA form',
  level_note='Library functions are taken to call the functions they receive before returning. Locks are identified by the variable or the type and field holding them.'),
 dict(id='C25', title='A panic becomes an error of what was being done',
  statement='A panic raised while a file or a content is translated, evaluated or written never gets out of its processing: it becomes the error of that file (of that content, of the function creating a template), so the other files are processed; a panic elsewhere in the program ends it with a failing exit status. Wherever a panic is caught it is turned into an error on every path: none is dropped, and no goroutine lets one out.',
  quantifier=dict(over=['inputs', 'faults', 'histories'], text='every panic that any content, file, setting or function can cause, in any of the files of a batch'),
  why_tests_cant='The inputs that make the translation or the evaluation panic are the ones nobody thought of; the tests contain none of them.',
  anchors=dict(files=['template/template_handler.go', 'template/template_process.go', 'template/template.go', 'template/math_utilities.go', 'main.go'],
    mechanism=[dict(name='panics of a file', where='template/template_handler.go (processTemplate)'), dict(name='panics of a content', where='template/template_process.go (ProcessContent)'), dict(name='panics while a template is created', where='template/template.go (NewTemplate)'), dict(name='panics of the program', where='main.go (runGotemplate)')],
    observe_at='errors returned, files processed after the failing one, exit status'),
  technique='path-sensitive check that every recover becomes the error of its function, and reachability of the evaluator that stops at functions catching panics first',
  level_note='Panics of functions called by templates are turned into errors by the template engine of Go. Fatal errors of the runtime (out of memory, stack exhausted by endless recursion) are not panics.'),
 dict(id='C24', title='Files, temporary files and responses are released on every path',
  statement='Whatever the program opens or creates for its own use is released on every path, failures included: opened files and bodies of responses are closed, temporary files and folders are removed by the function that created them or by the callers it hands them over to, and the temporary folder of the program is removed whichever way the program ends.',
  quantifier=dict(over=['faults', 'inputs', 'histories'], text='every failure of every operation between the moment something is obtained and the end of its owner, over any number of files rendered'),
  why_tests_cant='A file left behind does not fail a test; the paths that forget it are those of failures the tests do not cause.',
  anchors=dict(files=['utils/exec.go', 'template/extra_runtime.go', 'template/extra_net.go', 'template/template_process.go', 'main.go', 'utilities.go'],
    mechanism=[dict(name='temporary scripts', where='utils/exec.go (saveTempFile), template/extra_runtime.go (run)'), dict(name='responses', where='template/extra_net.go (httpDocument)'), dict(name='folder used to format terraform results', where='template/template_process.go (printResult)'), dict(name='folder of the program', where='main.go (tempFolder), utilities.go (cleanup)')],
    observe_at='files left in the temporary folder, descriptors and connections left open'),
  technique='typestate and ownership analysis on the SSA form, path by path from each acquisition, across helpers, deferred calls and callers',
  level_note='A path ended by a panic is not followed, except for the temporary folder of the program. The response that httpGet returns to a template belongs to the template. What is stored in a structure or a package variable is considered owned by it.'),
 dict(id='C31', title='Logging settings never change what is produced',
  statement='The settings of the logs (levels of the two loggers and of the log file, path of the log file, given by options or variables) only decide what is logged: texts rendered, files written, values given by functions, errors and exit status are the same whatever they are. The logging functions of templates log at the level of their name and add nothing to the text.',
  quantifier=dict(over=['configurations', 'inputs'], text='every combination of levels and of log files, for every template, content and context'),
  why_tests_cant='The tests run at one level; what is done for another one only (a trace, the detailed report of each razor expression) is never executed by them, and a side effect of it needs a particular text.',
  anchors=dict(files=['template/razor.go', 'template/razor_expr.go', 'template/razor_repl_expr.go', 'template/extra_logging.go', 'main.go'],
    mechanism=[dict(name='report of each razor expression (printDebugInfo) and debugMode', where='template/razor.go'), dict(name='traces of expressions', where='template/razor_expr.go (nodeValueInternal), template/razor_repl_expr.go (expressionParserInternal)'), dict(name='logging functions of templates', where='template/extra_logging.go'), dict(name='options of the logs', where='main.go (run)')],
    observe_at='the same run with another level: standard output, files, exit status'),
  technique='information-flow (non-interference) analysis on the SSA form: explicit flows of the settings, and effects of the regions controlled by them across calls, closures and rules',
  level_note='What loggers do with the messages, and the time taken, are not part of it. The fatal and panic functions end the template at every level, as their name says. A setting that cannot be applied (unknown level) is reported on the error stream only.'),
 dict(id='C26', title='Processing always ends: loops and recursions are bounded',
  statement='Whatever the text, the data, the folders searched or the arguments, every loop of the program ends and every function that calls itself, directly or through others, stops: translating, evaluating, converting, searching and reporting errors come to an end instead of hanging or exhausting the stack. What a template itself asks for without end (templates including themselves), data that contains itself and inputs without end are not in this guarantee.',
  quantifier=dict(over=['inputs', 'histories'], text='every input of every loop and recursion of the repository'),
  why_tests_cant='A test that ends says nothing of the inputs for which the same loop makes no progress (an empty text, a step too small, a link leading back, an error that cannot be corrected).',
  anchors=dict(files=['collections/string.go', 'collections/convert_data.go', 'collections/implementation/list_helper.go', 'template/math_utilities.go', 'template/template_error_handler.go', 'template/razor_repl_expr.go', 'template/razor_expr.go', 'template/extra_runtime.go', 'hcl/utilities.go'],
    mechanism=[dict(name='searches in texts', where='collections/string.go (IndexAll, Protect, GetWordAtPosition)'), dict(name='number sequences', where='template/math_utilities.go (generateNumericArray)'), dict(name='further errors of a template', where='template/template_error_handler.go (Handler)'), dict(name='folders and links searched', where='utils/io.go (FindFilesMaxDepth)'), dict(name='nested data', where='collections/implementation (Clone, NeedConversion, deepMerge), hcl/utilities.go')],
    observe_at='the call returns'),
  technique='termination analysis on the SSA form: lexicographic linear ranking of every loop (path enumeration and Fourier-Motzkin), size-change termination of every cycle of the call graph',
  level_note='Structures handed over are taken to be finite and not to contain themselves; library functions are taken to end. A limit may be a number tested before, a length, a set of places already seen, or a mark removed from the text handed on.'),
]
