P = [
 dict(id='C17', title='Every function name and alias denotes one implementation',
  statement='Within one set of template functions, a name or alias denotes exactly one implementation, so which function a call reaches never depends on iteration order. Alias lists and documented argument lists and examples are attached to functions that exist, every registered function has a result shape the template engine accepts, and a function with a fixed number of parameters does not document more arguments than it takes.',
  quantifier=dict(over=['inputs', 'schedules'], text='every template calling any of the registered functions or aliases, every map iteration order'),
  why_tests_cant='About 400 names are registered from tables built separately; the tests call few of them, and a conflict shows only in some map orders.',
  anchors=dict(files=['template/func_table.go', 'template/extra_sprig.go', 'template/extra_data.go', 'template/extra_math.go', 'template/extra_os.go', 'template/extra_runtime.go', 'template/extra_utils.go'],
    mechanism=[dict(name='function tables and their alias, argument and help tables', where='template/extra_*.go'), dict(name='registration', where='template/func_table.go (addFunctions)')], observe_at='which function a template call reaches; the function help'),
  technique='static evaluation of the registration tables (constant folding over SSA) and table-agreement rules',
  level_note='Every group of registered functions is evaluated from the source. Conflicts between different groups (where the later add-on overrides the earlier on purpose) are not judged.'),
 dict(id='C18', title='Add-on functions exist only when their option is on',
  statement='The functions of an optional add-on (sprig, math, data, logging, runtime, utils, net, os, git) are available to a rendered file only when the option of that very add-on is on. Extension files, which run with all add-ons by design, are excluded.',
  quantifier=dict(over=['configurations', 'inputs'], text='every combination of the add-on options and every template'),
  why_tests_cant='The tests run with the default options and one or two of the 2^9 combinations.',
  anchors=dict(files=['template/add_funcs.go', 'template/template.go'], mechanism=[dict(name='option-guarded registration', where='template/add_funcs.go')], observe_at='functions callable from a template'),
  technique='dominance of option tests over registration calls, with pairing of option and registered table',
  level_note='Decides that each registration is dominated by its own option test. Options are taken as given; how command-line flags map to options is not part of this property.'),
 dict(id='C19', title='Template functions have only the effects of their add-on',
  statement='A template function can start processes only if it belongs to the runtime or git add-on, change files only in runtime or os, use the network only in net, and read files only in data, os, runtime or git; math and utility functions have none of these effects. Logging functions have none either, except that those documented to do so end the program. Turning the add-on off therefore removes the effect.',
  quantifier=dict(over=['inputs', 'configurations'], text='every call of every registered function with any argument'),
  why_tests_cant='Absence of an effect on all paths of some 200 functions cannot be sampled.',
  anchors=dict(files=['template/extra_data.go', 'template/extra_os.go', 'template/extra_net.go', 'template/extra_runtime.go', 'template/extra_math.go', 'template/extra_utils.go', 'template/extra_git.go', 'template/extra_logging.go'],
    mechanism=[dict(name='function tables', where='template/extra_*.go')], observe_at='processes, files and connections of a run'),
  technique='call-graph effect analysis from every registered implementation to classified library calls',
  level_note='Static, interface and closure calls are followed in this repository; library functions are classified by name. Functions of the adapted sprig library are not followed.'),
 dict(id='C20', title='Razor operators call the function that performs them',
  statement='Every razor operator, synonym operator (<> ≠ ÷ ≦ ≧ « » ...) and assignment operator is translated to the template function performing that very operation, with the operands in the order they were written, and every function name emitted by the razor translation exists as a template function.',
  quantifier=dict(over=['inputs'], text='every razor expression using any operator, alone or in an assignment'),
  why_tests_cant='The tests use a few of the operators and spellings; an operator translated to a wrong or unknown function is seen only when that spelling is used.',
  anchors=dict(files=['template/razor.go', 'template/razor_repl_expr.go', 'template/extra_math.go'], mechanism=[dict(name='operator table and AST translation', where='template/razor_repl_expr.go, template/razor_expr.go')], observe_at='generated template code and its results'),
  technique='static evaluation of the operator tables, joined with the function registry; slice of emitted names',
  level_note='Decides the table agreement (operator, function, operand order). Precedence and the parsing itself are left to the Go parser and are not decided.'),
 dict(id='C21', title='Configured delimiters are honoured everywhere',
  statement='The three configured delimiters (left, right, razor) are the ones used everywhere code is recognised, translated and rendered. The text of a delimiter is never interpreted as a regular expression, no test of the content and no generated code relies on the default delimiters, and nothing cached for one set of delimiters is used for another.',
  quantifier=dict(over=['configurations', 'inputs', 'histories'], text='every choice of the three delimiters, every file, and any sequence of templates with different delimiters in one process'),
  why_tests_cant='Tests with custom delimiters cover one set; a place where a default was hard coded shows only for that construct with other delimiters.',
  anchors=dict(files=['template/razor.go', 'template/razor_repl_expr.go', 'template/template.go', 'template/template_process.go'], mechanism=[dict(name='delimiter substitution in the razor rules', where='template/razor.go'), dict(name='default and current delimiters', where='template/template.go')], observe_at='rendered result with custom delimiters'),
  technique='backward slicing of every literal and pattern containing delimiter text to the configured delimiters',
  level_note='Decides where delimiter text comes from and that it is quoted; that the translated text is what the user meant is not decided.'),
 dict(id='C29', title='Built-in regular expressions are valid and their groups exist',
  statement='Every regular expression built into the program compiles for every configuration, and each group a replacement text or a lookup refers to, by name or by number, exists in every expression it is applied with, so that no part of the user text is silently dropped.',
  quantifier=dict(over=['inputs', 'configurations'], text='every text on which any of the built-in expressions is applied'),
  why_tests_cant='A group that does not exist expands to nothing without an error; only a text matching that rule would show it, and an expression that is built lazily is compiled only when used.',
  anchors=dict(files=['template/razor.go', 'template/template_error_handler.go', 'utils/substitute.go', 'collections/string.go'], mechanism=[dict(name='razor rule table', where='template/razor.go'), dict(name='error message expressions', where='template/template_process.go')], observe_at='translated template code'),
  technique='static evaluation of the expressions and replacement texts; agreement of group references',
  level_note='All expressions built from constants are evaluated and parsed at check time with the standard library parser; expressions given by the user are not judged.'),
]
