CORE = ['oclint-core/lib/*.cpp']
CHECKS = {}


def check(id, **k):
    k['id'] = id
    CHECKS[id] = k


def E(name, *covers, **k):
    return dict(name=name, covers=list(covers), **k)


check('C01', harness=['c_results.cpp'], sources=CORE, clang=True,
      entries=[E('unique_violations', 'duplicate removed', 'all distinct'), E('unique_violations_many', 'duplicate removed', 'all distinct'),
               E('unique_errors', 'duplicate removed'), E('unique_warnings', 'duplicate removed'), E('unique_checker_bugs', 'duplicate removed'),
               E('violation_equality', 'equal', 'different'), E('violation_set')])
check('C02', harness=['c_results.cpp'], sources=CORE, clang=True,
      entries=[E('counts_unique', 'two files', 'fewer than collected'), E('counts_raw', 'two files'), E('counts_units', 'findings'), E('counts_diagnostics_unique', 'two errors'), E('counts_diagnostics_raw', 'two errors')])
check('C03', harness=['c_main.cpp'], sources=CORE + ['oclint-driver/lib/RulesetFilter.cpp', 'oclint-driver/lib/RulesetBasedAnalyzer.cpp', 'oclint-driver/lib/GenericException.cpp', 'oclint-driver/lib/Logger.cpp'], clang=True,
      entries=[E('exit_status', 'ok', 'exceed', 'errors'), E('exit_status_many', 'ok', 'exceed', 'errors'), E('exit_status_duplicates', 'ok', 'exceed', 'errors'), E('exit_status_any_threshold', 'ok', 'exceed', 'errors'),
               E('faults', '1', '2', '3', '4', '5', '6', '7'), E('listing', 'listed')])
check('C04', harness=['c_core.cpp'], sources=CORE + ['oclint-driver/lib/RulesetFilter.cpp'], clang=True,
      entries=[E('filter_history', 'none', 'all', 'one'), E('filter_lists', 'none', 'all', 'one'), E('filter_names', 'only a', 'none'), E('registry', 'in', 'beyond')])
check('C05', harness=['c_core.cpp'], sources=CORE + ['oclint-driver/lib/RulesetFilter.cpp'], clang=True, entries=[E('identifier', 'all letters', 'empty')])
check('C06', harness=['c_core.cpp'], sources=CORE + ['oclint-driver/lib/RulesetFilter.cpp'], clang=True,
      entries=[E('config_history', 'cleared', 'known', 'unknown'), E('config_int', 'number', 'default'), E('config_double', 'real')])

REP = [E('report_path', 'longest'), E('report_message', 'longest'), E('report_rule', 'longest'), E('report_category', 'longest'), E('report_diagnostic', 'longest'), E('report_numbers', 'checked'), E('report_lists', 'nothing', 'many'), E('report_summary', 'checked'), E('report_time', 'checked')]
for i, n in (('C07', 'JSON'), ('C08', 'XML'), ('C09', 'PMD'), ('C10', 'HTML'), ('C11', 'Text'), ('C12', 'Xcode')):
    check(i, harness=['c_report.cpp'], sources=CORE + ['oclint-reporters/reporters/%sReporter.cpp' % n], clang=True, defs=['R_' + n.upper()], entries=REP)

RULES = CORE + ['oclint-metrics/lib/*.cpp', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/lib/helper/*.cpp', 'oclint-rules/lib/util/*.cpp']


def R(*names):
    return RULES + ['oclint-rules/rules/%sRule.cpp' % n for n in names]


EMPTY = ['If', 'Else', 'While', 'Do', 'For', 'Switch', 'Try', 'Catch', 'Finally']
check('C13', harness=['c_empty.cpp'], ast=True, sources=RULES + ['oclint-rules/rules/empty/*.cpp'], entries=[E('empty_' + e.lower(), 'bad', 'good') for e in EMPTY])
MET = [E('nested', 'bad', 'good'), E('conditions', 'bad', 'good'), E('deep', 'bad', 'good'), E('sequence', 'bad', 'good'), E('chain', 'bad', 'good'), E('places', 'bad', 'good'), E('defaults', 'bad', 'good')]
for i, d, r in (('C14', 'CCN', 'CyclomaticComplexity'), ('C15', 'NPATH', 'NPathComplexity'), ('C16', 'NCSS', 'NcssMethodCount'), ('C17', 'DEPTH', 'NestedBlockDepth')):
    check(i, harness=['c_metrics.cpp'], ast=True, defs=['M_' + d], sources=R('size/' + r), entries=MET + ([E('huge', 'bad')] if d == 'NPATH' else []))
check('C18', harness=['c_size.cpp'], ast=True, sources=RULES + ['oclint-rules/lib/AbstractSourceCodeReaderRule.cpp'] + ['oclint-rules/rules/size/%sRule.cpp' % r for r in ('LongMethod', 'LongClass', 'LongLine', 'TooManyFields', 'TooManyMethods', 'TooManyParameters')],
      entries=[E(e, 'bad', 'good') for e in ('method_lines', 'method_outside', 'parameters', 'class_lines', 'fields', 'methods', 'lines')])
check('C19', harness=['c_basic.cpp'], ast=True, sources=R('basic/DoubleNegative', 'basic/MultipleUnaryOperator', 'basic/BrokenOddnessCheck', 'basic/ConstantIfExpression', 'basic/ConstantConditionalOperator'),
      entries=[E(e, 'bad', 'good') for e in ('double_negative', 'multiple_unary', 'oddness', 'constant_if', 'constant_cond')])
check('C20', harness=['c_null.cpp'], ast=True, sources=R('basic/BrokenNullCheck', 'basic/MisplacedNullCheck', 'redundant/RedundantNilCheck', 'redundant/UnnecessaryNullCheckForCXXDealloc'),
      entries=[E(e, 'bad', 'good') for e in ('broken_null', 'misplaced_null', 'broken_nil', 'misplaced_nil', 'redundant_nil', 'dealloc_check')])
check('C21', harness=['c_flow.cpp'], ast=True, sources=R('basic/DeadCode', 'basic/CollapsibleIfStatements', 'basic/ForLoopShouldBeWhileLoop', 'basic/JumbledIncrementer', 'basic/ReturnFromFinallyBlock', 'basic/ThrowExceptionFromFinallyBlock'),
      entries=[E(e, 'bad', 'good') for e in ('dead_code', 'collapsible', 'for_while', 'jumbled', 'finally_return', 'finally_throw')])
check('C22', harness=['c_switch.cpp'], ast=True, sources=R('convention/CoveredSwitchStatementsDontNeedDefault', 'convention/SwitchStatementsShouldHaveDefault', 'convention/DefaultLabelNotLastInSwitchStatement', 'convention/TooFewBranchesInSwitchStatement', 'convention/MissingBreakInSwitchStatement', 'convention/NonCaseLabelInSwitchStatement'),
      entries=[E(e, 'bad', 'good') for e in ('covered_default', 'missing_default', 'default_last', 'few_branches', 'missing_break', 'other_labels')])
check('C23', harness=['c_convention.cpp'], ast=True, sources=R('convention/InvertedLogic', 'convention/ParameterReassignment', 'convention/AvoidBranchingStatementAsLastInLoop', 'convention/PreferEarlyExit'),
      entries=[E(e, 'bad', 'good') for e in ('inverted', 'reassignment', 'reassignment_inner', 'branching_last', 'early_exit')])
check('C24', harness=['c_redundant.cpp'], ast=True, sources=R('redundant/RedundantConditionalOperator', 'redundant/RedundantIfStatement', 'redundant/RedundantLocalVariable', 'redundant/UnnecessaryElseStatement', 'redundant/UselessParentheses'),
      entries=[E(e, 'bad', 'good') for e in ('conditional', 'redundant_if', 'local_variable', 'unnecessary_else', 'parentheses')])
check('C25', harness=['c_unused.cpp', 'raii.cpp'], ast=True, sources=R('unused/UnusedMethodParameter'), entries=[E(e, 'bad', 'good') for e in ('local_places', 'raii', 'raii_standard', 'parameters', 'methods', 'objc_methods')])
check('C26', harness=['c_naming.cpp'], ast=True, sources=R('naming/LongVariableName', 'naming/ShortVariableName'), entries=[E(e, 'bad', 'good') for e in ('long_lengths', 'short_lengths', 'long_places', 'short_places')])
check('C27', harness=['c_suppress.cpp'], ast=True, sources=RULES + ['oclint-rules/lib/AbstractSourceCodeReaderRule.cpp', 'oclint-rules/rules/size/LongLineRule.cpp'], entries=[E(e, 'suppressed', 'reported') for e in ('annotations', 'comments', 'objc_annotations', 'lines', 'two_line_rules')])
check('C28', harness=['c_gate.cpp'], ast=True, sources=RULES, entries=[E('languages', 'nothing', 'something'), E('macros', 'something'), E('macro_declarations', 'something')])

check('C29', harness=['c_options.cpp'], models=['options.cpp'], sources=CORE + ['oclint-driver/lib/RulesetFilter.cpp', 'oclint-driver/lib/ConfigFile.cpp', 'oclint-driver/lib/Logger.cpp'], clang=True,
      entries=[E('precedence', 'set', 'default', time=800), E('rule_configurations', 'some', 'none'), E('rule_selection', 'enabled', 'disabled', 'undecided'), E('rule_paths', 'installed', 'configured'), E('config_file', 'read'), E('paths', 'output', 'none')])
check('C30', harness=['c_diag.cpp'], ast=True, sources=CORE + ['oclint-driver/lib/DiagnosticDispatcher.cpp', 'oclint-driver/lib/RulesetBasedAnalyzer.cpp', 'oclint-driver/lib/Logger.cpp', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/lib/helper/*.cpp'],
      entries=[E('diagnostics', 'bug', 'error', 'warning', 'nothing'), E('every_rule_every_unit', 'ran', 'nothing to do')])

check('C31', harness=['c_class.cpp'], ast=True, sources=R('convention/BaseClassDestructorShouldBeVirtualOrProtected', 'convention/DestructorOfVirtualClass'), entries=[E(e, 'class', 'no class', 'base', 'no base') for e in ('one_base', 'three', 'two_bases', 'places')] + [E('dependent', 'known', 'unknown')])
check('C32', harness=['c_cocoa.cpp'], ast=True, sources=RULES + ['oclint-rules/rules/cocoa/*.cpp'], entries=[E(e, 'bad', 'good') for e in ('must_call_super', 'prohibited_text', 'protected_text', 'prohibited', 'protected_', 'abstract_', 'equal_hash')])
check('C33', harness=['c_objc.cpp'], ast=True, sources=RULES + ['oclint-rules/rules/migration/*.cpp'], entries=[E(e, 'bad', 'good') for e in ('number_literals', 'boxed_numbers', 'boxed_strings', 'containers', 'subscripts')])
check('C34', harness=['c_objc.cpp'], ast=True, sources=R('convention/ObjCAssignIvarOutsideAccessors', 'design/FeatureEnvy', 'cuda/CudaBranchDivergence'), entries=[E(e, 'bad', 'good') for e in ('ivar_names', 'ivar_places', 'envy', 'divergence')])
check('C35', harness=['c_matchers.cpp'], ast=True, models=['matchers.cpp'], sources=RULES + ['oclint-rules/lib/AbstractASTMatcherRule.cpp', 'oclint-rules/rules/basic/BitwiseOperatorInConditionalRule.cpp', 'oclint-rules/rules/basic/GotoStatementRule.cpp', 'oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp', 'oclint-rules/rules/design/AvoidPrivateStaticMembersRule.cpp'],
      entries=[E(e, 'bad', 'good') for e in ('bitwise_places', 'bitwise_forms', 'goto_places', 'goto_nested', 'defaults', 'private_statics')])

# self-test of the library models (no property)
check('X01', harness=['x_std.cpp'], sources=CORE, clang=True, entries=[E(e) for e in ('x_map', 'x_set', 'x_uset', 'x_seq', 'x_vec', 'x_algo', 'x_str', 'x_str2', 'x_num', 'x_oss', 'x_iss', 'x_sv', 'x_util', 'x_ptr', 'x_exc', 'x_c', 'x_sref', 'x_sref2', 'x_adt', 'x_raw', 'x_ap', 'x_cout', 'x_algo2', 'x_it', 'x_misc', 'x_dbl', 'x_virt', 'x_cstr', 'x_fold')])

check('C36', harness=['c_load.cpp'], sources=['oclint-driver/lib/GenericException.cpp'], clang=True, defs_thorough=['ENTRIES=4'],
      entries=[E('load_rules', 'loaded', 'none', 'error'), E('load_reporter', 'found', 'not found', 'does not open', 'no reporter')])
check('C37', harness=['c_docgen.cpp'], sources=CORE + ['oclint-driver/lib/GenericException.cpp'], clang=True, defs=['DOCGEN'], source_defs=['DOCGEN'], defs_thorough=['RULES=4'], entries=[E('documentation', 'error', 'one', 'several')])
check('C38', harness=['c_driver.cpp'], sources=['oclint-driver/lib/GenericException.cpp'], overlay_includes=['harness/fakeclang'], llvm=True, defs=['NDEBUG'], defs_thorough=['ARGS=4'],
      entries=[E('arguments', 'analyzer', 'compiler'), E('commands', 'nothing', 'global', 'one by one'), E('jobs', 'error', 'global', 'one by one'), E('compilation', 'no target', 'compiled', 'not opened')])
