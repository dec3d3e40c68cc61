P = [
 dict(id='C13', title='List and dictionary operations change only what they document',
  statement='An operation on a list or dictionary (JSON, YAML or HCL, through the generic interfaces) changes its receiver only if it is documented to change it: Set on a list; Add, Delete, Flush, Merge, Pop and Set on a dictionary. It never changes a list, dictionary, map or slice supplied as argument nor the values held by it. A template function changes none of its arguments either, except set and unset (the dictionary) and merge (the destination).',
  quantifier=dict(over=['inputs', 'histories'], text='every list and dictionary, however nested or shared, every operation and template function, every argument'),
  why_tests_cant='Tests compare the result of an operation and seldom look again at the operands; an alteration shows only for particular capacities, sharings or nestings.',
  anchors=dict(files=['collections/implementation/list_helper.go', 'collections/implementation/dict_helper.go', 'collections/implementation/generic.go', 'template/extra_data.go'],
    mechanism=[dict(name='list and dictionary helpers shared by the implementations', where='collections/implementation'), dict(name='data functions', where='template/extra_data.go')], observe_at='operands after an operation'),
  technique='compositional effect and alias analysis over SSA (writes to storage reachable from the arguments, through every callee and implementation)',
  level_note='Every interface method and every registered function implemented in the repository is summarised; library calls use a table of their effects. Six known findings: rendering an included template with a supplied dictionary adds the global values to it.'),
 dict(id='C14', title='Clones and newly built collections are independent',
  statement='The result of Clone or Omit shares no list or dictionary, at any depth, with the object it was made from. Every other operation that builds a new list or dictionary (Append, Prepend, Reverse, Unique, Union, KeysAsList, GetAll, CloneFrom...) returns new top-level storage, never the storage of its receiver or of an argument, so changing the result never changes the operand.',
  quantifier=dict(over=['inputs', 'histories'], text='every list and dictionary, of any nesting, and every later change of either the result or the original'),
  why_tests_cant='Sharing shows only when one of the two is changed afterwards, and for slices only for some capacities.',
  anchors=dict(files=['collections/implementation/list_helper.go', 'collections/implementation/dict_helper.go', 'collections/implementation/generic.go', 'template/extra_data.go'],
    mechanism=[dict(name='cloning and copying helpers', where='collections/implementation/list_helper.go, dict_helper.go')], observe_at='original after a change of the copy'),
  technique='compositional alias analysis over SSA: origins of the results of every copying operation',
  level_note='Values other than the generic lists and dictionaries (plain Go maps held inside a list) are not containers here, as in the code, which converts them on entry.'),
 dict(id='C15', title='Results of copying operations are used',
  statement='Wherever the program calls a list or dictionary operation that returns a new object and leaves its receiver unchanged (Append, Prepend, Reverse, Unique, Clone, Merge into a new list...), the result is used; a Set on a list whose result is ignored is made only on a list created with a size; and a function handing its own variable arguments to another variable-argument operation spreads them.',
  quantifier=dict(over=['inputs'], text='every call of such an operation, for every content'),
  why_tests_cant='A dropped result yields an empty or partial answer only in the branch where it was dropped; such branches had no test.',
  anchors=dict(files=['template/extra_data.go', 'collections/implementation/list_helper.go', 'collections/implementation/dict_helper.go', 'template/context.go'],
    mechanism=[dict(name='calls of the copying operations', where='all packages')], observe_at='results of the functions calling them'),
  technique='use analysis over SSA of every call of a copying operation',
  level_note='Which operations copy is decided by the effect analysis of C13 and the interface documentation; a result that is used wrongly is not detected.'),
 dict(id='C16', title='Results never depend on map iteration order',
  statement='Rendered results, returned lists and texts, files written, messages printed, processes started and templates imported never depend on the order in which a Go map happens to be iterated: whatever is collected from a map is sorted before any other use or is insensitive to the order. Log messages and the choice of the error reported when several occur are excluded.',
  quantifier=dict(over=['schedules', 'inputs'], text='every map iteration order in every loop over a map, for every content'),
  why_tests_cant='A test sees one random order per run, and most maps in tests have one or two keys.',
  anchors=dict(files=['collections/implementation/dict_helper.go', 'hcl/utilities.go', 'template/func_table.go', 'template/razor_repl_expr.go', 'template/template.go', 'context.go', 'utils/terraform.go'],
    mechanism=[dict(name='keys sorted before use', where='collections/implementation/dict_helper.go (KeysAsString), hcl/utilities.go'), dict(name='sorted tables of functions, operators and templates', where='template')], observe_at='rendered result, function lists, files'),
  technique='dependence analysis over SSA of every loop over a map, followed through slices, calls and returns',
  level_note='All loops over maps (range, reflect keys, slices filled from them) are judged. Keys different as map keys are taken as different once converted to text; one loop of hcl/utilities.go is exempted by review as unreachable with several keys.'),
]
