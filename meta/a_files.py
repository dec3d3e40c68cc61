P = [
 dict(id='C01', title='Source files survive: removed, moved or overwritten only when safe',
  statement='Processing a file in place removes its source only when overwriting was requested, the file is a template and its result has been written without error; a file that is not a template is overwritten only when overwriting was requested or after it has been set aside under a longer name. Nothing but the processed file is ever removed or moved, and a file whose rendering changed nothing is not rewritten. Without overwriting, the result of a template is saved beside it under a ".generated" name.',
  quantifier=dict(over=['inputs', 'configurations', 'fault_sequences'], text='every file content, every combination of the overwrite/print options and of source and target folders, every failing file operation'),
  why_tests_cant='The tests render a handful of documents and compare text; none forces a failing write or rename, or enumerates option combinations against the files left on disk.',
  anchors=dict(files=['template/template_handler.go', 'template/template_process.go'],
    mechanism=[dict(name='in-place save sequence: set aside, write, remove', where='template/template_handler.go (single-file processing)'), dict(name='template file test', where='template/template.go')], observe_at='files on disk after a run'),
  technique='property simulation over SSA (path-sensitive facts, helpers analysed in context)',
  level_note='Every path of the exported file-processing entry points is followed with branch facts as state; each removing, renaming or writing call is judged in every state that reaches it. Paths are compared as canonical terms, file contents and partial writes are not modelled.'),
 dict(id='C02', title='Printing mode leaves the file system untouched',
  statement='When results are sent to standard output, because printing was requested or because the file itself asked for it through its first line, no file or folder outside a private temporary folder is created, written, renamed or removed by the processing of that file.',
  quantifier=dict(over=['inputs', 'configurations'], text='every file, every option combination, including a file that turns printing on while it is being rendered'),
  why_tests_cant='Tests of the print mode check what is printed for a few inputs, never that the source tree stays untouched on all paths.',
  anchors=dict(files=['template/template_handler.go', 'template/template_process.go'], mechanism=[dict(name='print option tested after the rendering and before any mutation', where='template/template_handler.go')], observe_at='files on disk after a run'),
  technique='property simulation over SSA: must-be-known-false option before every file-system mutation',
  level_note='Covers the mutations of the processing path itself; commands and save functions a template calls on purpose are not restricted by this property. A read of the option before the rendering does not count.'),
 dict(id='C03', title='A failed rendering never produces output',
  statement='If rendering a file or an inline template fails, no file is written, moved or removed for it and nothing is printed as its result; the failure is what is reported.',
  quantifier=dict(over=['inputs', 'configurations', 'fault_sequences'], text='every template and context for which rendering returns an error'),
  why_tests_cant='A test samples a few failing templates; the claim is about every failing path to every output.',
  anchors=dict(files=['template/template_handler.go', 'template/template_process.go'], mechanism=[dict(name='error test between rendering and saving', where='template/template_handler.go')], observe_at='files on disk and standard output'),
  technique='property simulation over SSA: rendering error must be known nil at every output',
  level_note='Decides the ordering between the error of the rendering step and every output of the processing path; whether the rendering reports an error at all is C10.'),
 dict(id='C04', title='One failing file neither stops nor hides the others',
  statement='When several files are processed together, a failure on one of them (reading, rendering, setting aside, writing, formatting) never prevents the remaining files from being processed. Every such failure is part of the error returned to the caller.',
  quantifier=dict(over=['inputs', 'fault_sequences'], text='every list of files and every combination of per-file failures'),
  why_tests_cant='Tests process one document at a time and inject no file-system fault.',
  anchors=dict(files=['template/template_handler.go'], mechanism=[dict(name='per-file error collection', where='template/template_handler.go (loop over the files)')], observe_at='returned error, files produced'),
  technique='property simulation of the batch loop, loop-exit rule on the CFG, call-graph effect rule (no panic on OS failures)',
  level_note='Decides collection on every path, loop exits, and the absence of panics raised from operating-system errors; run-time panics such as index errors are not bounded.'),
 dict(id='C05', title='The exit status tells success from failure',
  statement='The command ends with status zero only if no step failed: loading the variables, preparing the engine, selecting, rendering, saving or formatting the files, and no panic was recovered. When a step failed or the source folder is missing (and that was not to be ignored) the status is not zero.',
  quantifier=dict(over=['inputs', 'configurations', 'fault_sequences'], text='every command line accepted by the parser, every combination of failing steps'),
  why_tests_cant='The command-line tests cover ten invocations; combinations of failures (an exclusion error followed by a success, a panic after a success) are not reached.',
  anchors=dict(files=['main.go', 'utilities.go'], mechanism=[dict(name='status result of the run function, recovery', where='main.go')], observe_at='process exit status'),
  technique='property simulation of the main function including deferred calls and recovery',
  level_note='All error-returning calls into this repository are followed to every return; the parser library and its own exits (usage, help) are trusted.'),
 dict(id='C32', title='A successful result is delivered: printed, or written whole to its file',
  statement='When the processing of a file or inline template ends without an error, its whole result has been printed once (inline template, or printing asked for) or written without error to the file whose name is given back, in the target folder. The only exceptions are blank results (of inline templates, or of templates whose name has no other extension) and files unchanged by their rendering processed in place: then nothing is written and no name is given back.',
  quantifier=dict(over=['inputs', 'configurations', 'fault_sequences'], text='every template, every combination of the options and folders, every failing file operation'),
  why_tests_cant='The tests render texts in memory; none goes through the combinations of printing, overwriting, extensions, folders and failing writes to see that the result arrives.',
  anchors=dict(files=['template/template_handler.go', 'template/template_process.go'], mechanism=[dict(name='delivery of a result: print, or write and name the file', where='template/template_handler.go (single-file processing), template/template_process.go (printing)')], observe_at='standard output and files on disk after a run, names returned by ProcessTemplate'),
  technique='property simulation over SSA (path-sensitive facts and content terms), judged at every end of the processing of a file',
  level_note='Every path of the exported functions processing one file is followed; the text printed or written must be the text rendered (or that text read back from the temporary file it was formatted in). Contents are compared as terms; the formatting by terraform and failures of the standard output are not modelled.'),
]
