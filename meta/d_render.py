HANDLER = 'template/template_handler.go'
P = [
 dict(id='C07', title='Files rendered together do not influence one another',
  statement='Every file or content is evaluated on a deep copy of the context, also when the evaluation is retried after an error, so what a file sets in the context is not seen by the files rendered after it; only extension files, loaded while a template is being built, are evaluated on the context itself. What including a template changes meanwhile (the context of the including template, the treatment of missing keys of the included one) is put back at every way out. An option switched by a file (the standard output, by a gotemplate shebang) is back to its own value when the next file of the batch is rendered.',
  quantifier=dict(over=['inputs', 'histories', 'faults'], text='every sequence of files rendered by one run, with every combination of failing evaluations and retries'),
  why_tests_cant='The tests render files one by one or with independent content; an influence shows only for a particular pair of files in a particular order, often after an error in the first.',
  anchors=dict(files=[HANDLER, 'template/template_error_handler.go', 'template/extra_runtime.go', 'template/template.go'],
    mechanism=[dict(name='copy of the context', where='template/template_handler.go (processContentInternal)'), dict(name='retry after an error', where='template/template_error_handler.go (Handler)'), dict(name='restoration of the context and of missing keys', where='template/extra_runtime.go (optimizedRunTemplate)'), dict(name='restoration of the print option', where='template/template_handler.go (ProcessTemplatesWithHandler)')],
    observe_at='results of the files rendered after another one'),
  technique='path-sensitive typestate analysis of the rendering functions (data handed to execution; changed/restored states of context, options and missing keys)',
  level_note='Influence through templates defined or aliases registered by a file (shared by the files of a folder on purpose), through files written by templates, or through the process (environment, working directory) is not part of the property. A batch is a loop rendering files.'),
 dict(id='C08', title='A template and the contexts made from it own their options',
  statement='The options of a template are a map made for it: a template never changes the options given by its caller, and the contexts made from it have their own copy, so an option switched in one (by a file, a function or SetOption) is never switched in another.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'], text='every way templates and contexts are built from given options or from one another, and every later change of an option'),
  why_tests_cant='Sharing shows only when an option of one template is changed after another was made from the same options, which no test does for each way of building a template.',
  anchors=dict(files=['template/template.go', 'template/options.go'], mechanism=[dict(name='NewTemplate, GetNewContext, initExtension', where='template/template.go')], observe_at='the options map of the caller; behaviour of sibling templates'),
  technique='path-sensitive alias analysis of the options field of every template built, plus provenance of every value assigned to it',
  level_note='Decided for every function of the package returning a template and every assignment of the field.'),
 dict(id='C09', title='Opted-out text is neither executed nor translated',
  statement='A file or content is parsed and executed only if rendering is not disabled and its text does not contain no-gotemplate!. Razor expressions of a file, content or included template are translated only if the razor option is on and the text contains neither no-razor! nor no-gotemplate!.',
  quantifier=dict(over=['inputs', 'configurations'], text='every text with every combination of markers, razor code, shebang and pauses, every combination of the options'),
  why_tests_cant='The markers are tested alone in a handful of texts; a path on which one is not looked at needs a particular combination of markers, options and kind of file.',
  anchors=dict(files=[HANDLER, 'template/razor.go', 'template/template.go', 'template/extra_runtime.go'], mechanism=[dict(name='IsCode and IsRazor', where='template/template.go'), dict(name='guards of the rendering', where='template/template_handler.go (processContentInternal)'), dict(name='guard of the translation', where='template/razor.go (applyRazor)')], observe_at='rendered text; effects of template functions'),
  technique='path-sensitive simulation of the rendering functions: facts established about markers and options at every parse, execution and translation',
  level_note='The markers are looked for in the text as it is after the configured substitutions, as the program does. Retries are reached only after the first evaluation has passed the guards.'),
 dict(id='C10', title='Undefined values never reach a successful result',
  statement='A rendering (file, content or included template) that ends without an error, undefined values not being accepted, holds no <no value> and no <nil> produced by the evaluation, unless the text is returned unaltered.',
  quantifier=dict(over=['inputs', 'configurations'], text='every template and context, every combination of options'),
  why_tests_cant='The tests exercise a few undefined values; a path reporting success without having looked, or having looked at only one of the two forms, needs a particular template or option.',
  anchors=dict(files=[HANDLER, 'template/extra_runtime.go'], mechanism=[dict(name='detection of <no value> and <nil>', where='template/template_handler.go (processContentInternal), template/extra_runtime.go (optimizedRunTemplate)')], observe_at='rendered text and error status'),
  technique='path-sensitive simulation of the rendering functions: facts established about the result at every successful exit',
  level_note='A retry made after an error to collect further errors is judged by that error. A handler supplied by the caller may replace the result and is not judged.'),
 dict(id='C11', title='Paused regions and protected marks come out as written',
  statement='From a line holding gotemplate-pause! to the one before the line holding gotemplate-resume!, no delimiter reaches the razor translation or the template parser; from razor-pause! to razor-resume!, no razor delimiter does; other lines are given as they are. Everything hidden meanwhile, and every <no value> or <nil> written in the source, is put back in the result of every successful rendering.',
  quantifier=dict(over=['inputs', 'configurations'], text='every text with any arrangement of pause and resume markers, every set of delimiters'),
  why_tests_cant='The arrangements of markers are unbounded (nested, repeated, on one line, unterminated); the tests cover a few.',
  anchors=dict(files=[HANDLER], mechanism=[dict(name='pausing loop and revertReplacements', where='template/template_handler.go (processContentInternal)'), dict(name='<no value> and <nil> protection', where='template/template_handler.go (processContentInternal)')], observe_at='rendered text'),
  technique='path-sensitive simulation with a ghost automaton for the paused regions (one transition per line) and matching of each replacement with its reversal in the result',
  level_note='That the placeholders themselves do not occur in the source is assumed. Later transformations of the result (substitutions, data conversions) may alter paused text like any other; they are not judged.'),
 dict(id='C30', title='Whether a file is changed by its rendering is reported exactly',
  statement='A file that has been evaluated is reported as changed exactly when the text returned differs from the text given; a file returned unaltered, or in which nothing was evaluated, is reported as unchanged. This decides whether the file is rewritten, backed up or left alone.',
  quantifier=dict(over=['inputs', 'configurations'], text='every text, context and combination of options, with or without errors ignored'),
  why_tests_cant='The flag differs from the truth only for particular texts (whose evaluation gives back the same text, or whose errors are ignored); the tests look at few.',
  anchors=dict(files=[HANDLER], mechanism=[dict(name='changed result', where='template/template_handler.go (processContentInternal)')], observe_at='files rewritten, .original backups'),
  technique='path-sensitive simulation of the rendering functions: symbolic comparison of the flag with the text returned at every successful exit',
  level_note='A file in which nothing is evaluated is reported unchanged even when substitutions apply to it. Changes made by a handler supplied by the caller are those it reports. The result of a retry is taken as reported by it.'),
]
