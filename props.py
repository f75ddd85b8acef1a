"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
PROPS = []
NA = []
NOTE = ('Every path of the harness over the real compiled functions is explored and every assertion decided by the solver, within the bounds in the '
        'evidence file; trusted: the clang front end, the executor in engine/, the runtime models in models/ (cross-checked by native replays on every run) and Z3.')


def P(id, title, statement, over, text, why, files, mech, note='', technique='symbolic execution of the compiled sources (LLVM IR) with SMT', observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique, observe=observe))


P('C01', 'Results without duplicates contain every distinct finding once',
  'The de-duplicated list of violations, compiler errors, compiler warnings or checker bugs holds each distinct one exactly once, in order of first occurrence and with every field unchanged, and two entries are the same only if rule, path, message and all four positions agree. The raw results hold every entry in order of arrival; diagnostics stay in their own list and never become rule violations.',
  ['inputs', 'histories'], 'every list of up to 3 violations (4 in the thorough check) spread over two files\' sets, every position a free 32-bit number, paths and messages of free bytes',
  'The tests check a handful of fixed violations; equality and hashing must agree for every combination of fields.',
  ['oclint-core/lib/UniqueResults.cpp', 'oclint-core/lib/RawResults.cpp', 'oclint-core/lib/AbstractResults.cpp', 'oclint-core/lib/Violation.cpp', 'oclint-core/lib/ViolationSet.cpp', 'oclint-core/lib/ResultCollector.cpp'],
  [('hash set of violations', 'UniqueResults.cpp'), ('violation equality and hash', 'Violation.cpp, UniqueResults.cpp')])
P('C02', 'Summary counts agree with the lists they summarise',
  'The number of violations, of violations with any given priority, of errors, warnings and checker bugs equal what the corresponding list of the same results holds, de-duplicated or raw, whenever and in whatever order they are asked for. The number of files is the number of analysed units, and the number of files with violations is the number of distinct paths among units that have any.',
  ['inputs', 'histories'], 'up to 2 units (3 thorough) with up to 3 (4) violations over two rules with free priorities, any queried priority, up to 2 diagnostics of each kind',
  'Tests use one mock set; the counts and the lists are computed by different code which must agree for every history.',
  ['oclint-core/lib/RawResults.cpp', 'oclint-core/lib/UniqueResults.cpp', 'oclint-core/lib/AbstractResults.cpp', 'oclint-core/lib/ResultCollector.cpp'],
  [('counting', 'AbstractResults.cpp, RawResults.cpp, UniqueResults.cpp')])
P('C03', 'The exit status reports what happened and where the report goes',
  'Exit status 7, 1, 2, 3 and 4 name the stage that failed (options, rules including none loaded, reporter, analysis, writing the report), 6 says that there were compiler errors, 5 that violations of some priority exceed its maximum, 0 neither. A report is written exactly once whenever the analysis succeeded, to standard output or to the given file and nowhere else, and failures are explained on standard error. All given rule directories are loaded in order, and listing prints exactly the enabled rules.',
  ['inputs', 'fault_sequences', 'configurations'], 'every combination of one or more failing stages, every threshold (32-bit), up to 3 violations (4 thorough) of any priority, duplicates allowed or not',
  'main() is not covered by any test; which status wins depends on combinations of faults and counts.',
  ['oclint-driver/main.cpp', 'oclint-core/include/oclint/ExitCode.h', 'oclint-core/lib/AbstractResults.cpp'],
  [('main', 'oclint-driver/main.cpp'), ('violations against thresholds', 'oclint-driver/main.cpp')],
  note=' The driver, option parsing, dynamic loading and the reporter are stand-ins here; they have their own properties.')
P('C04', 'Rule selection: the last decision on a rule wins, order is kept',
  'A rule runs exactly when it was not disabled and, if any rules are enabled, it is one of them, where the last enable or disable of an identifier decides. Selected rules come in the order in which they were registered, each once, the listed names are those of the selected rules, and only whole identifiers match. A registered rule is found at its place of registration and nothing is found beyond the last.',
  ['histories', 'configurations'], 'every history of up to 4 (5) enable/disable calls and two rounds of list calls over three rules and an unknown name, free names of up to 3 bytes, up to 4 registrations, any index',
  'Tests sample a few histories.',
  ['oclint-driver/lib/RulesetFilter.cpp', 'oclint-core/lib/RuleSet.cpp'], [('enabled and disabled sets', 'RulesetFilter.cpp'), ('registry', 'RuleSet.cpp')])
P('C05', 'A rule identifier is its name in camel case',
  'The identifier of a rule is made of exactly the letters of its name, in order, the first letter of every word in upper case and all others unchanged; its attribute name is the name itself.',
  ['inputs'], 'every name of up to 5 (7) arbitrary bytes', 'Tests use three names.',
  ['oclint-core/lib/RuleBase.cpp'], [('camel casing', 'RuleBase.cpp')])
P('C06', 'A configured value is the one read back, otherwise the default',
  'A key is known exactly when it was configured since the configuration was last cleared, its value is the one set last, and as a number it is the number written; for a key that was not configured the given default is returned. Asking changes nothing.',
  ['histories', 'inputs'], 'every history of up to 3 (4) set/clear calls over free keys of at most one byte, integers of up to 4 (6) digits with sign, decimals with two places, any default',
  'Tests set and read single keys.', ['oclint-core/lib/RuleConfiguration.cpp'], [('the map', 'RuleConfiguration.cpp')])
REPORT_OVER = 'any text of up to 2 (3) bytes in any one text field of a violation or diagnostic, any 32-bit number in any one position field, every combination of up to 3 violations and 2 diagnostics of each kind, any summary numbers up to a million'
for i, n, low, st in (
    ('C07', 'JSON', 'json', 'The JSON report is one well-formed JSON value whose strings and numbers, read back, are exactly the fields of every violation and checker bug, each reported once and in order, with an end position only when it is known. Its summary holds the numbers of files, of files with violations and of violations per priority, its time stamp is the current time, and version and address are those of the tool.'),
    ('C08', 'XML', 'xml', 'The XML report is a well-formed XML document whose attributes, read back by an XML parser, are exactly the fields of every violation and checker bug, each reported once and in order, with an end position only when it is known. Its summary holds the numbers of files, of files with violations and of violations per priority, and its date and time are the current ones in universal time.'),
    ('C09', 'PMD', 'pmd', 'The PMD report is a well-formed XML document in which every compiler error, compiler warning, violation and checker bug appears once, in this order, with exactly its path, positions, rule, category and message. Priorities are given on PMD\'s odd scale: 1, 3 and 5 for priorities 1, 2 and 3.'),
    ('C10', 'HTML', 'html', 'The HTML report is well-formed and lists every violation, compiler error, compiler warning and checker bug once, in this order, one table row each, whose cells shown by a browser are exactly path, line and column, rule, category, priority and message. The summary table holds the numbers of files, files with violations, violations per priority and diagnostics of each kind.'),
    ('C11', 'text', 'text', 'The text report is exactly: the compiler errors, warnings and checker bugs under their headings (only if there are any), one summary line with the numbers of files, files with violations and violations per priority, and one line per violation with path, line, column, rule, category, priority and message, in order.'),
    ('C12', 'Xcode', 'xcode', 'The Xcode report is exactly one line per violation, in order, with path, line, column, the word warning, rule, category, priority and message, and nothing else.')):
    f = {'text': 'Text', 'Xcode': 'Xcode'}.get(n, n)
    P(i, 'The %s report says exactly what was found' % n, st, ['inputs'], REPORT_OVER, 'Tests render one or two fixed violations without special characters.',
      ['oclint-reporters/reporters/%sReporter.cpp' % f], [('report', '%sReporter.cpp' % f)])

AST_NOTE = (' The program under analysis is parsed by the real clang in a process whose memory the executor then uses; literals, operators, names, line numbers and limits are put in as symbolic values, '
            'and the structure of the program is a choice the solver forks on. clang\'s own accessors that depend on the structure only run natively.')
PROGRAMS = 'every program built from the statements, conditions and places listed in DESIGN.md, in C, C++ and Objective-C where the construct exists, with free line numbers'


def A(id, title, statement, extra, why, rules, note=''):
    """a property of rules applied to programs"""
    P(id, title, statement, ['inputs'] if 'limit' not in extra else ['inputs', 'configurations'], PROGRAMS + (', ' + extra if extra else ''), why, rules, [(r.split('/')[-1].replace('.cpp', ''), r) for r in rules[:4]], AST_NOTE + note)


def RL(*names):
    return ['oclint-rules/rules/%sRule.cpp' % n for n in names]


A('C13', 'Empty statements: exactly the empty ones are reported',
  'For each of if, else, while, do, for, switch, try, catch and finally, the rule for its empty statements reports exactly those whose body is an empty block or a lone semicolon (an else branch only if it is the branch itself, not an else-if), at the position of that body and with its true start and end, wherever the statement stands. A body with anything in it, even a lone semicolon or an empty block within braces, is not reported.',
  '', 'Tests have a few fixed bodies in one context.', ['oclint-rules/rules/empty/%sRule.cpp' % n for n in ('EmptyIfStatement', 'EmptyElseBlock', 'EmptyWhileStatement', 'EmptyDoWhileStatement', 'EmptyForStatement', 'EmptySwitchStatement', 'EmptyTryStatement', 'EmptyCatchStatement', 'EmptyFinallyStatement')])
A('C14', 'Cyclomatic complexity is counted right and compared with its limit',
  'A function or method is reported exactly when its cyclomatic complexity exceeds CYCLOMATIC_COMPLEXITY (10 if not configured), at its position, with complexity and limit in the message. The complexity is 1 plus the number of if, for, for-in, while, do, case, @catch and catch, ?:, && and || anywhere in it; nothing else counts.',
  'operators free, any limit of up to two digits', 'Tests count one construct at a time.', ['oclint-metrics/lib/CyclomaticComplexityMetric.cpp'] + RL('size/CyclomaticComplexity'))
A('C15', 'NPath complexity is computed right and compared with its limit',
  'A function or method with a body is reported exactly when its NPath complexity exceeds NPATH_COMPLEXITY (200 if not configured). A sequence multiplies; if is condition + then + else (1 without); while and do are condition + body + 1; for is its three parts + body + 1; for-in is body + 2; switch is condition + the sum over its groups of statements following each label; ?: adds 2 to its operands; && and || add 1 to theirs; parentheses and conversions are transparent; other expressions are 0, other statements 1. A number that does not fit is reported as the largest that does.',
  'operators free, any limit of up to two digits', 'Tests check small fixed bodies; the number grows exponentially.', ['oclint-metrics/lib/NPathComplexityMetric.cpp'] + RL('size/NPathComplexity'))
A('C16', 'Non-commenting source statements are counted right',
  'A function or method is reported exactly when its number of non-commenting source statements exceeds NCSS_METHOD (30 if not configured). The function counts 1, every statement within counts 1, an else 1 more, do 2, every case, default, try, catch, finally, synchronized and pool 1, a block and a lone semicolon 0; a function without a body counts 0.',
  'any limit of up to two digits', 'Tests count small fixed bodies.', ['oclint-metrics/lib/NcssMetric.cpp'] + RL('size/NcssMethodCount'))
A('C17', 'Block nesting depth is measured right and compared with its limit',
  'Every block whose nesting depth exceeds NESTED_BLOCK_DEPTH (5 if not configured) is reported once, at its position with depth and limit; the depth of a block is 1 plus the greatest depth among the blocks within it, through every kind of statement, on every branch, handler and finally part.',
  'any limit of up to two digits', 'Tests nest one kind of statement.', ['oclint-metrics/lib/StmtDepthMetric.cpp'] + RL('size/NestedBlockDepth'))
A('C18', 'Size limits of methods, classes, parameters and lines hold exactly',
  'A method body (not one written within its C++ class), a class, interface, category, protocol or implementation, and a line of the main file are reported exactly when longer than LONG_METHOD (50 lines), LONG_CLASS (1000 lines) or LONG_LINE (100 bytes). A class definition with more fields or declared methods than TOO_MANY_FIELDS (20) or TOO_MANY_METHODS (30), and a function with a body and more parameters than TOO_MANY_PARAMETERS (10), are reported once. Each report has the true size and limit.',
  'any number of lines up to 100000, up to 32 fields or methods, up to 12 parameters, comment lines of free bytes, any limit of up to two digits', 'Tests use a few sizes around a fixed limit.', RL('size/LongMethod', 'size/LongClass', 'size/LongLine', 'size/TooManyFields', 'size/TooManyMethods', 'size/TooManyParameters') + ['oclint-rules/lib/AbstractSourceCodeReaderRule.cpp', 'oclint-rules/lib/util/ASTUtil.cpp'])
A('C19', 'Suspicious operators and constant conditions are reported exactly',
  'Exactly these are reported, wherever the expression stands: !! and ~~ (parentheses may stand between), at the outer operator; a + - ~ ! applied, through parentheses or conversions, to another of them (multiple unary operator); x % 2 == 1, either way round, with these operators and the numbers 2 and 1, neither converted (broken oddness check); an if condition, and the condition of a ?:, whose truth the compiler can compute (through operators, parentheses, && and || decided by one operand, and ?:), at that condition. No other operator, number or statement is.',
  'operators and numbers free', 'Tests try a few operators and numbers in one place.', RL('basic/DoubleNegative', 'basic/MultipleUnaryOperator', 'basic/BrokenOddnessCheck', 'basic/ConstantIfExpression', 'basic/ConstantConditionalOperator'))
A('C20', 'Null checks: exactly the wrong or needless ones are reported',
  'A check compares a pointer or object variable with 0, NULL, nil or nullptr by == or !=, either way round, or is the variable or its negation. Reported at the && or ||: broken (p == 0 && or p != 0 || followed by p->, or by a message to p), misplaced (p->, or a message to p, followed by && p != 0 or || p == 0), redundant (p != nil && followed by a message to p that is not negated). A C++ if without else whose condition is that a pointer (variable or member) is not null and that does nothing but delete it, or delete it and then set it to null, is reported as unnecessary. Nothing else is.',
  'operators free', 'Tests use a few fixed forms with one variable.', ['oclint-rules/rules/abstract/AbstractNullCheckRule.h'] + RL('basic/BrokenNullCheck', 'basic/MisplacedNullCheck', 'redundant/RedundantNilCheck', 'redundant/UnnecessaryNullCheckForCXXDealloc'))
A('C21', 'Unreachable and misleading statements are reported exactly',
  'Reported are exactly: in each block, the first statement (no label or case) after one that always leaves: return, break, continue, goto, throw, a block ending so, or an if both of whose branches do (dead code); an if without else around nothing but an if without else (collapsible); a for with a condition but neither initialisation nor step; the step of an inner for, the only statement in the outer one, that increments or decrements the single variable the outer one declares (jumbled); and return, or @throw and the NSException raise messages, anywhere within @finally, once per enclosing @finally.',
  '', 'Tests use a few fixed forms in one place.', RL('basic/DeadCode', 'basic/CollapsibleIfStatements', 'basic/ForLoopShouldBeWhileLoop', 'basic/JumbledIncrementer', 'basic/ReturnFromFinallyBlock', 'basic/ThrowExceptionFromFinallyBlock'))
A('C22', 'Switch statements: cases, defaults and breaks are judged right',
  'Reported are exactly: a switch directly over an enumeration variable that has a case for each of its values and also a default; a switch without default (unless it covers an enumeration so); a default label that a case of the same switch follows; a switch with fewer case labels of its own than MINIMUM_CASES_IN_SWITCH (3); once, a switch with a block as body one of whose groups (a label in that block and what follows up to the next) neither holds break, return, continue or throw anywhere under its label, nor directly or within a block among its further statements; each ordinary label within a switch, once per enclosing switch. Labels of an inner switch never count for the outer.',
  'any limit of up to two digits', 'Tests use one or two fixed switches per rule.', RL('convention/CoveredSwitchStatementsDontNeedDefault', 'convention/SwitchStatementsShouldHaveDefault', 'convention/DefaultLabelNotLastInSwitchStatement', 'convention/TooFewBranchesInSwitchStatement', 'convention/MissingBreakInSwitchStatement', 'convention/NonCaseLabelInSwitchStatement'))
A('C23', 'Inverted conditions, parameter assignment, ends of loops: reported exactly',
  'Reported are exactly: the condition of an if with else, or of a ?:, that itself is !x or x != y; each assignment by = whose left side is a parameter itself, once; a break, continue or return that is the last statement of the block of a for, for-in, while or do; an if without else longer than MAXIMUM_IF_LENGTH (15) lines that is the last (or only) statement of a for, while or do, or stands directly before the break, continue, goto or return that ends its block.',
  'operators free, any number of lines up to 200, any limit of up to two digits', 'Tests use a few fixed forms and lengths.', RL('convention/InvertedLogic', 'convention/ParameterReassignment', 'convention/AvoidBranchingStatementAsLastInLoop', 'convention/PreferEarlyExit') + ['oclint-rules/lib/util/ASTUtil.cpp'])
A('C24', 'Redundant branches, variables, else parts and parentheses: reported exactly',
  'Reported are exactly: a ?: whose branches are opposite truth values (true and false, YES and NO, C casts of 0 and 1), the same literal or the same variable or enumerator; an if whose two branches only return, or only assign by = to the same place, opposite truth values; a variable declared alone and returned, without conversion, by the next statement, the last of the block; the last else of an if-else-if chain each of whose other branches returns on every way through its ifs; parentheses that are the whole of an if condition, return value or initial value that undergoes no conversion.',
  'numbers and truth values free', 'Tests use a few literals and shapes.', RL('redundant/RedundantConditionalOperator', 'redundant/RedundantIfStatement', 'redundant/RedundantLocalVariable', 'redundant/UnnecessaryElseStatement', 'redundant/UselessParentheses') + ['oclint-rules/lib/util/ASTUtil.cpp'])
A('C25', 'Exactly the unused local variables and parameters are reported',
  'A variable declared in a function or method (static and extern ones, loop and catch variables included) is reported exactly when it is never mentioned, not directly in a function template, and its class is not listed in RAII_DEFAULT_CLASSES (std::lock_guard, std::unique_lock) or RAII_CUSTOM_CLASSES (names separated by commas, semicolons, blanks or tabs; template arguments and const left off). A named parameter of a function or method with a body is reported exactly when it is never used (sizeof is no use), unless marked unused, in a template, or dictated: virtual methods and methods written in a C++ class, Objective-C actions, and Objective-C methods that a superclass or a protocol of the class or its extension declares.',
  'separators and letters of the lists free', 'Tests use a few fixed functions and class lists.', RL('unused/UnusedLocalVariable', 'unused/UnusedMethodParameter') + ['oclint-rules/lib/util/ASTUtil.cpp'])
A('C26', 'Exactly the variable names that are too long or too short are reported',
  'Every variable or parameter whose name has more letters than LONG_VARIABLE_NAME (20), and every one whose name has fewer than SHORT_VARIABLE_NAME (3), is reported with name, length and limit, wherever it is declared; a reported name more than ten letters beyond the limit is shown as its first limit + 3 letters, three dots and its last three letters. Never too short are unnamed parameters and the variables declared in the head of a for, for-in or catch.',
  'names of up to 48 letters, any limit of up to two digits', 'Tests use a handful of names and limits.', RL('naming/LongVariableName', 'naming/ShortVariableName'))
A('C27', 'Suppression leaves out exactly what is annotated or commented',
  'A finding at a declaration or a statement is left out exactly when the line on which it begins also holds a documentation comment containing //!OCLINT, or when the declaration itself or one around it (function, parameter, variable, class, namespace, Objective-C interface, method, field, property) is annotated with oclint:suppress, or with text that begins with oclint:suppress[ the name of the rule ]. An annotation of the method in the interface holds for its implementation. Rules about lines leave out commented lines and the lines of annotated declarations. Every other finding stays.',
  'annotation and comment text free (up to 34 bytes, no quote or backslash), every place of up to two annotations', 'Tests suppress one rule at a time with the exact marker.', ['oclint-rules/lib/helper/SuppressHelper.cpp', 'oclint-rules/lib/helper/AttributeHelper.cpp', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/lib/AbstractSourceCodeReaderRule.cpp'], ' One analysis per process; annotations of a superclass or a protocol are outside.')
A('C28', 'A rule sees exactly the main file, in the languages it is for',
  'A rule sees every declaration and statement of the declarations at the top level of the main file (those made by a macro used there included), and none of those in headers, exactly if it is for the language: Objective-C and Objective-C++ count as Objective-C, C++ as C++, all else as C. In CUDA code it sees kernels only if it is for global functions, other functions only if it is for host functions. It is set up before and torn down after, once. What a macro makes is reported where the macro is used, and what is written in an argument of a macro where it is written.',
  'any combination of languages and CUDA attributes', 'Tests parse one file without headers.', ['oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/include/oclint/AbstractASTRuleBase.h'])
P('C29', 'Options: the command line beats project, user and installation settings',
  'Every option has the value given on the command line, else the one in .oclint of the working directory, else of the home directory, else in the installed configuration, else its default. For rule settings the last of these in the opposite order counts per key, for rules the last decision to enable or disable, rule paths add up (arguments first; the installed rules only if there are none). Whatever a configuration file says is kept as long as it is used. A relative output path starts at the working directory, which may be of any length; the installation is found from the program.',
  ['inputs', 'configurations'], 'every option in any of the four places with free values of three letters or two digits, up to 5 rule settings with free keys and values, all decisions about a rule in four places, up to 6 rule paths, working directories of up to 700 bytes', 'There are no tests of options or configuration files.',
  ['oclint-driver/lib/Options.cpp', 'oclint-driver/lib/ConfigFile.cpp'], [('precedence', 'Options.cpp'), ('file contents', 'ConfigFile.cpp')], ' LLVM\'s command line and YAML reader are models (plain block YAML; one = in a rule setting), compared with the real ones by the replays.')
P('C30', 'Compiler diagnostics and every rule on every unit reach the results',
  'Every error and fatal error of the compiler is reported as an error and every warning as a warning, with its text, file, line and column (for what a macro makes, where the macro is used), and notes and remarks are not; everything the static analyzer says is reported as a checker bug. Every selected rule is applied to every unit, in order, and all its findings are kept with the unit.',
  ['inputs', 'histories'], 'up to two diagnostics of any level with free texts of up to 3 bytes in a main file, header or macro; up to 3 rules, 3 units and 2 rounds', 'Nothing tests them.',
  ['oclint-driver/lib/DiagnosticDispatcher.cpp', 'oclint-driver/lib/RulesetBasedAnalyzer.cpp'], [('diagnostics', 'DiagnosticDispatcher.cpp'), ('analysis', 'RulesetBasedAnalyzer.cpp')], AST_NOTE)
A('C31', 'Destructors of polymorphic classes and of their bases are judged right',
  'A class is polymorphic if it, or a class it derives from, has a virtual function. Exactly the polymorphic classes whose destructor is not virtual (declared so, or by inheritance) are reported, where they are defined. For every polymorphic class exactly those classes it publicly derives from are reported, at their definition and with its name, whose destructor is neither virtual nor protected; the bases of a base are looked at too unless that base is polymorphic itself. Forward declarations are not reported.',
  '', 'Tests use a few fixed classes; the rules recurse over any hierarchy.', RL('convention/BaseClassDestructorShouldBeVirtualOrProtected', 'convention/DestructorOfVirtualClass'))
A('C32', 'Annotations that enforce something of Objective-C methods are enforced',
  'With annotation oclint:enforce[... method] (anything may follow; a last part in brackets is a comment), in a class, category or protocol: for base, exactly each implementation of a method overriding an annotated one of a superclass or protocol is reported that nowhere sends the same message to super; for prohibited, each call of the method or function, with the comment; for protected, each call, in an implementation of a class or category that is neither the annotated method\'s class (for a protocol: the receiver\'s) nor derives from it, to a receiver of known class; for abstract, each annotated method of the direct superclass an implementation leaves out. An implementation with isEqual: but no hash is reported.',
  'annotation texts free in one byte or up to 5 following bytes', 'Tests use one annotated method and one caller.', ['oclint-rules/lib/helper/EnforceHelper.cpp', 'oclint-rules/lib/helper/AttributeHelper.cpp', 'oclint-rules/lib/util/ASTUtil.cpp'] + RL('cocoa/ObjCVerifyMustCallSuper', 'cocoa/ObjCVerifyProhibitedCall', 'cocoa/ObjCVerifyProtectedMethod', 'cocoa/ObjCVerifySubclassMustImplement', 'cocoa/ObjCVerifyIsEqualHash'), ' Abstract methods declared again in a subclass or implemented in a category are outside.')
A('C33', 'Objective-C literals, boxing and subscripting: exactly what can use them',
  'Reported are exactly: [NSNumber numberWithX: literal] with a literal of just type X (characters for Char, YES and NO or BOOL casts of numbers for Bool), and with an expression in parentheses (not merely a variable) of just type X, for Bool one converted to BOOL, or an enumerator for Int; [NSString stringWithUTF8String:] of a call or expression in parentheses of type char *; the messages array, arrayWithObject(s):, arrayWithObjects:count: to NSArray and the like to NSDictionary; reading an element of an NSArray or NSDictionary variable, setting one of an NSMutableArray or NSMutableDictionary variable. Other classes, derived ones included, are not.',
  'every selector with every form of argument, Objective-C and Objective-C++', 'Tests try a few selectors with matching arguments.', RL('migration/ObjCNSNumberLiterals', 'migration/ObjCBoxedExpressions', 'migration/ObjCContainerLiterals', 'migration/ObjCObjectSubscripting'))
A('C34', 'Instance variables, feature envy and CUDA branches are reported exactly',
  'Reported are exactly: every instance variable mentioned on the left of an assignment operator within a method that is not called as the variable without underscores, nor set, that name with a capital first letter, and a colon, nor begins with init; every class to which a method of another class sends more messages than to its own (messages to instances and to the class, property and instance variable accesses count; super and receivers of unknown class do not; self is the own class); every if with else in a CUDA kernel, and none elsewhere.',
  'names of the variable and the method free (4 and up to 7 letters)', 'Tests use a few fixed names and counts.', RL('convention/ObjCAssignIvarOutsideAccessors', 'design/FeatureEnvy', 'cuda/CudaBranchDivergence') + ['oclint-rules/lib/util/StdUtil.cpp'], ' Accesses to inherited instance variables are outside.')
A('C35', 'Bitwise conditions, gotos, default arguments, private statics: reported exactly',
  'Reported are exactly: the condition of every if, while, do loop and conditional operator that contains &, | or ^ (not their assignments, nor the address operator), at any depth, and no condition of for and switch; every goto; every virtual method, implicitly virtual ones too, that has a parameter with a default argument; every private static data member and method, wherever it is declared or defined, whether privacy is written or that of a class.',
  'operators symbolic in C', 'Tests cover single fixed statements; what matters is depth, context and implied virtuality or privacy.', ['oclint-rules/lib/AbstractASTMatcherRule.cpp'] + RL('basic/BitwiseOperatorInConditional', 'basic/GotoStatement', 'design/AvoidDefaultArgumentsOnVirtualMethods', 'design/AvoidPrivateStaticMembers'), ' The matcher library behind its headers is a model (models/matchers.cpp).')
P('C36', 'Rule libraries and reporters are loaded from their folders',
  'Every file of a rule folder whose name does not begin with a dot is opened as a library, once, by its path; the first that cannot be opened is an error naming it, a folder that is not there is none. Of the files of the reporter folder, taken alike, the first whose reporter has the name asked for is the one used; a file that cannot be opened or has no create function before that, or no such reporter at all, is an error that says so, and then there is no reporter, whatever was loaded before. Folders are closed again in every case.',
  ['inputs', 'fault_sequences'], 'up to 3 entries (thorough: 4) with free names of one byte (the first up to 3), free report types and reporter names of up to 2 bytes, each entry a library, none, or one without the function', 'Nothing tests them.',
  ['oclint-driver/rules_dlfcn_port.cpp', 'oclint-driver/reporters_dlfcn_port.cpp'], [('rules', 'rules_dlfcn_port.cpp'), ('reporters', 'reporters_dlfcn_port.cpp')], ' opendir, readdir, dlopen and dlsym are stand-ins.')
P('C37', 'The rule documentation describes every rule once, in its category',
  'The generator of the documentation writes one file for every category of the loaded rules and an index that counts the rules and lists the categories once each, in alphabetical order. The file of a category describes exactly its rules, once each, ordered by identifier, with identifier, version, name, description, the place of its class, example, thresholds if it has any, the way to suppress it if it can be, and further text if there is any. If the rules of some folder cannot be loaded, or there are none, nothing is written and the exit status is not 0.',
  ['inputs', 'fault_sequences'], 'up to 3 rules (thorough: 4) with free names of up to three characters (letters of both cases, blanks, dashes), categories of one or two letters and free texts of one or two bytes; one or two rule folders, any of which may fail', 'Nothing tests the generator.',
  ['oclint-driver/main_docgen.cpp', 'oclint-core/lib/RuleBase.cpp'], [('generator', 'main_docgen.cpp'), ('identifiers', 'RuleBase.cpp')], ' Files, the date and the loading of libraries are stand-ins; the date is not looked at.')
P('C38', 'The driver compiles every file with its own command and analyzes what compiles',
  'Every command of every file asked for is compiled once, in its folder (with "\\ " standing for a blank), in order; files without a command are skipped. clang gets the command itself with its own executable, without its output, without -gmodules, syntax only, and with __OCLINT__ defined, wherever options end; the static analyzer, exactly if it is asked for, gets it once more, with --analyze instead of syntax only. The trees of exactly those files that compile without an error reach the analyzer, which prepares, analyzes and finishes them while they are there, all together for a global analysis and one by one otherwise, and they are released afterwards. A command whose folder is not there, or that is not a single one for clang (or for a device), ends the run with an error; a file that does not compile does not.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command of up to 3 arguments (thorough: 4), up to 3 commands of up to 2 files, every outcome of each, global or not, with and without the static analyzer', 'Driver.cpp is not compiled by the tests.',
  ['oclint-driver/lib/Driver.cpp', 'oclint-driver/lib/CompilerInstance.cpp'], [('driver', 'Driver.cpp'), ('compiler instance', 'CompilerInstance.cpp')],
  ' clang is a stand-in (harness/fakeclang): both files are written against LLVM 21, and the LLVM 20 installed does not compile them.')
