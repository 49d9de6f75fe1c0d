#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Machine-readable reports are well formed and lossless',
 'For any set of results, the JSON, XML and PMD reports are well-formed documents of their format which a standard parser reads back to exactly the results that were reported: every violation (and, where the format has a place for them, every compiler error, compiler warning and static-checker bug), each with its path, positions (an end position, which the JSON and XML reports give only when both its line and column are known), rule, category, priority and message unchanged, nothing missing, nothing added, in order. This holds whatever printable text occurs in paths, rule names and messages, including quotes, backslashes, angle brackets, ampersands, tabs and newlines.',
 ['inputs'], 'all result sets: any number (0..n) of violations/errors/warnings/bugs with any text in any field',
 'The reporter tests compare a handful of fixed results with benign strings against literal substrings; no test ever parses a report or puts a special character in one.',
 ['oclint-reporters/reporters/JSONReporter.cpp', 'oclint-reporters/reporters/XMLReporter.cpp', 'oclint-reporters/reporters/PMDReporter.cpp'],
 [('escaping and separators', 'JSONReporter::write*, XMLReporter::write*, PMDReporter::writeViolation')],
 observe=['bytes written to the report stream, parsed by json / expat'])

prop('C02', 'Text, Xcode and HTML reports list every result, correctly',
 'The text, Xcode and HTML reports contain one entry per result, in order, giving its path, line, column, rule, category, priority and message as reported; compiler errors, compiler warnings and static-checker bugs appear under their own kind and never as rule violations. The HTML report is well formed and shows result text literally, whatever characters it contains.',
 ['inputs'], 'all result sets with any text in any field',
 'The tests assert a few literal substrings for one or two results with benign characters.',
 ['oclint-reporters/reporters/TextReporter.cpp', 'oclint-reporters/reporters/XcodeReporter.cpp', 'oclint-reporters/reporters/HTMLReporter.cpp'],
 [('per-result writers', 'TextReporter/XcodeReporter/HTMLReporter::report')],
 observe=['bytes written to the report stream'])

prop('C03', 'Duplicate removal and summary counts match the collected results',
 'By default the results are exactly the distinct collected ones (two are duplicates only if rule, path, all four positions and message agree), in order of first occurrence, for violations, compiler errors, compiler warnings and checker bugs alike; with duplicates allowed they are exactly the collected ones. All counts (per priority, total, errors, warnings, bugs, files, files with violations) in the results API and in the report summaries equal what counting the listed results gives, however often and in whatever order they are queried.',
 ['inputs', 'histories'], 'all histories of collected results over all files, and all query orders',
 'Tests use two or three hand-made violations; equality-by-all-fields and stability of repeated queries are quantified over all inputs and query histories.',
 ['oclint-core/lib/UniqueResults.cpp', 'oclint-core/lib/RawResults.cpp', 'oclint-core/lib/AbstractResults.cpp', 'oclint-core/lib/ResultCollector.cpp', 'oclint-core/lib/Violation.cpp', 'oclint-core/lib/ViolationSet.cpp'],
 [('hash set with full equality', 'UniqueResults.cpp removeViolationDuplications'), ('Violation::operator==', 'Violation.cpp')],
 observe=['Results API', 'report summaries'])

prop('C04', 'The exit status tells exactly what happened',
 'The exit status of a run is 0 exactly when every requested source that has a compile command compiled without error and, for each priority, the number of reported violations is at most its configured maximum; compiler errors give the compilation-error status, else exceeded maxima give the threshold status, and failures to load rules, load the reporter, process a source or write the report give their own documented statuses (when several things go wrong, the earliest stage decides: options, rules, reporter, processing, report). The report is written completely to the configured output (standard output or the output path, relative paths being taken from the directory oclint was started in) whatever the exit status, unless one of those failures prevented it.',
 ['inputs', 'configurations', 'fault_sequences'], 'all mixes of sources, violation counts, maxima (including 0, equal and negative), outputs and failures',
 'main() is not linked into any test; exit statuses are never exercised by the test-suite.',
 ['oclint-driver/main.cpp', 'oclint-driver/include/oclint/ExitCode.h', 'oclint-driver/lib/Options.cpp', 'oclint-driver/rules_dlfcn_port.cpp', 'oclint-driver/reporters_dlfcn_port.cpp'],
 [('handleExit, prepare, outStream', 'oclint-driver/main.cpp')],
 observe=['process exit status, standard output/error, output file'])

prop('C05', 'Exactly the selected rules run',
 'For any sequence of rule selections from the configuration files and the command line, a loaded rule runs exactly when it is not disabled and either no rule is left explicitly enabled or it is one of them, where for each name the last selection wins (within one configuration source, disabling is applied after enabling); unknown names select no rule, but an unknown name that is left enabled still counts as an explicit selection. The listing of enabled rules, the rules that produce violations and the programmatic selection all agree, and every rule keeps its position in loading order.',
 ['configurations', 'histories'], 'all sequences of enable/disable over all rule names and unknown names',
 'RulesetFilterTest tries single enable/disable steps on two rules; longer histories, configuration-file layering and effect on actual analysis are not tested.',
 ['oclint-driver/lib/RulesetFilter.cpp', 'oclint-driver/lib/Options.cpp', 'oclint-core/lib/RuleSet.cpp', 'oclint-core/lib/RuleBase.cpp', 'oclint-driver/rules_dlfcn_port.cpp'],
 [('RulesetFilter::filteredRules', 'RulesetFilter.cpp')],
 observe=['-list-enabled-rules output', 'reported violations', 'RulesetFilter API'])

prop('C06', 'Configuration sources combine with the documented precedence',
 'Every setting takes its effective value from the most specific source that sets it: command line over the project configuration file over the user one over the installation-wide one over the built-in default; list-valued settings (rule paths, rule configurations, enabled and disabled rules) accumulate: rule configurations, enabled and disabled rules so that the more specific source wins, rule paths from the command line first and then from the installation-wide, user and project files. Every value a configuration file states is used as written there (never garbage, never dropped), a missing, empty or blank file changes nothing, and a rule threshold given by rule configuration is the one the rule applies.',
 ['configurations', 'inputs'], 'all combinations of the three configuration files and command line, over all settings and values',
 'No test links the option or configuration-file code.',
 ['oclint-driver/lib/ConfigFile.cpp', 'oclint-driver/lib/Options.cpp', 'oclint-core/lib/RuleConfiguration.cpp'],
 [('processConfigFiles / updateArgIfSet', 'Options.cpp'), ('ConfigFile::mapping', 'ConfigFile.cpp')],
 observe=['option accessors after processing', 'end-to-end behaviour of oclint'])

prop('C07', 'Suppressions silence exactly what they cover',
 'A violation reported at a line carrying a //!OCLINT comment is suppressed, and a violation of a rule located within a declaration annotated oclint:suppress, or oclint:suppress[that rule] (the attribute name of the rule, which is its name but for four Objective-C rules), is suppressed; nothing else is: violations on other lines, outside the annotated declaration, of other rules, in other files or in later translation units are reported just as if the suppression were absent.',
 ['programs', 'histories'], 'all programs with any placement of suppression comments and annotations, and all sequences of translation units analysed in one run',
 'Helper tests check single snippets with one rule and one translation unit; completeness (nothing else vanishes) and independence of history are universal claims.',
 ['oclint-rules/lib/helper/SuppressHelper.cpp', 'oclint-rules/lib/helper/AttributeHelper.cpp', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/lib/AbstractSourceCodeReaderRule.cpp', 'oclint-rules/lib/AbstractASTMatcherRule.cpp'],
 [('shouldSuppress', 'SuppressHelper.cpp')],
 state=[('singleLineMapping/rangeMapping', 'process-wide caches of suppressed lines/ranges', 'SuppressHelper.cpp')],
 observe=['reported violations with and without the suppression'])

prop('C08', 'Violations carry the true source position',
 'Every violation names the file and the start and end line and column of the construct it is about, for constructs written directly in the source, inside macro arguments, produced by macro expansions (then the position of the expansion in the file) and under line directives; only constructs of the main source file are judged, never those of included headers. Shifting a construct by inserting lines or columns of white space or comments shifts its violations by exactly as much and changes nothing else about them (the rules that measure lines apart).',
 ['programs'], 'all programs and layouts: indentation, comments, line continuations, tabs, macros, includes, CRLF line ends',
 'Rule tests check a few fixed one-line snippets; the claim is over all layouts.',
 ['oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-core/lib/RuleCarrier.cpp', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/lib/AbstractASTMatcherRule.cpp', 'oclint-rules/lib/AbstractSourceCodeReaderRule.cpp'],
 [('addViolation', 'AbstractASTRuleBase.cpp'), ('isValidDecl main-file filter', 'AbstractASTVisitorRule.h')],
 observe=['reported violations'])

prop('C09', 'Analysis is deterministic and each source is judged on its own',
 'The violations reported for a translation unit depend only on that translation unit and the configuration: they are the same (as a sequence per rule) on every run, whichever other sources are analysed in the same run, in whichever order, however often, with global analysis on or off, and whichever other rules are enabled.',
 ['histories', 'configurations', 'programs'], 'all sequences of translation units and all rule subsets',
 'Every test analyses one snippet with one rule in a fresh object; state kept in rules or caches across translation units is never exercised.',
 ['oclint-driver/lib/RulesetBasedAnalyzer.cpp', 'oclint-driver/lib/Driver.cpp', 'oclint-rules/lib/helper/SuppressHelper.cpp', 'oclint-rules/rules'],
 [('per-translation-unit setUp', 'AbstractASTVisitorRule.h and rules'), ('per-context carrier and violation set', 'RulesetBasedAnalyzer.cpp')],
 state=[('rule member fields', 'per-rule state surviving across translation units', 'oclint-rules/rules/**')],
 observe=['reported violations per source'])

prop('C10', 'Every requested source is compiled as told and analysed exactly once',
 'Each compile command of each requested source is carried out once in its own directory with its own flags (minus output and code-generation effects, plus the __OCLINT__ macro), and its translation unit is analysed exactly once if it compiles without error; a source that fails to compile yields its errors in the report, is not analysed, and does not disturb the other sources. Sources without a compile command are skipped with a notice, and analysing never writes, truncates or deletes any file other than the requested report (and the module cache of the compiler).',
 ['inputs', 'configurations', 'fault_sequences'], 'all compilation databases and command lines: several commands per source, directories with special characters, flags order, missing files, failing sources at any position',
 'The driver is not linked into any test.',
 ['oclint-driver/lib/Driver.cpp', 'oclint-driver/lib/CompilerInstance.cpp', 'oclint-driver/lib/RulesetBasedAnalyzer.cpp'],
 [('constructCompileCommands/constructCompilers/invoke', 'Driver.cpp')],
 observe=['file counts, violations and errors per source', 'directory snapshots before and after'])

prop('C11', 'Compiler diagnostics reach the report faithfully',
 'Every error and warning the compiler emits for a requested source appears in the results exactly once per emission, classified as error or warning, with the file, line, column and text of the diagnostic (including those in headers and macro expansions: then the position of the expansion, the line as a line directive numbers it, in the file that was read); notes and remarks do not appear, and with the static analyzer enabled its findings appear as checker bugs and not as compiler warnings.',
 ['programs'], 'all programs and warning options',
 'The dispatcher is not linked into any test.',
 ['oclint-driver/lib/DiagnosticDispatcher.cpp', 'oclint-driver/lib/Driver.cpp'],
 [('HandleDiagnostic', 'DiagnosticDispatcher.cpp')],
 observe=['errors/warnings/bugs in the results versus an independent run of the same compiler library'])

prop('C12', 'Complexity metrics equal their published definitions',
 'For every function and method, cyclomatic complexity equals one plus the number of decision points, NPath equals the product/sum recurrence of its definition, NCSS equals the count of non-commenting source statements and nesting depth equals the deepest block nesting, for any nesting and combination of statements; values too large to represent are reported as exceeding, never wrapped around.',
 ['programs'], 'all function bodies built from the statement and expression forms of C, C++ and Objective-C',
 'Metric tests use single-construct snippets; compositions and large values are universal.',
 ['oclint-metrics/lib/CyclomaticComplexityMetric.cpp', 'oclint-metrics/lib/NPathComplexityMetric.cpp', 'oclint-metrics/lib/NcssMetric.cpp', 'oclint-metrics/lib/StmtDepthMetric.cpp'],
 [('recursive metric visitors', 'oclint-metrics/lib')],
 observe=['metric values in violation messages with the threshold set to minus one or to each side of the value'])

prop('C13', 'Size rules fire exactly above their threshold',
 'Each size rule (cyclomatic complexity, NPath, NCSS, nesting depth, method, class and line length, number of parameters, methods and fields) reports a function, class, block or line exactly when its measure exceeds the configured or documented default threshold, once per offender, with the measured value and the threshold in the message.',
 ['programs', 'configurations'], 'all programs and thresholds',
 'Tests use one or two snippets per rule around one threshold.',
 ['oclint-rules/rules/size'],
 [('threshold comparison', 'oclint-rules/rules/size/*.cpp')],
 observe=['reported violations'])

prop('C14', 'Empty-block rules report exactly the lexically empty blocks',
 'An if, else, while, do-while, for, range/collection-for, switch, try, catch or finally whose body is an empty statement or a block with nothing written between its braces (comments aside, and not counting macro-generated code hidden from the reader as empty) is reported by the corresponding rule exactly once at that body, and no other statement is reported, for any surrounding code.',
 ['programs'], 'all programs placing such statements at any depth and in any context',
 'Tests check one-statement snippets.',
 ['oclint-rules/rules/empty', 'oclint-rules/rules/abstract/AbstractEmptyBlockStmtRule.h'],
 [('checkLexicalEmptyStmt', 'AbstractEmptyBlockStmtRule.h')],
 observe=['reported violations'])

prop('C15', 'Control-flow rules report exactly the documented statement patterns',
 'The rules on switch statements (missing break, missing, superfluous or misplaced default, stray labels, too few branches), loops (jumbled incrementer, for that should be while, branching as last statement), conditionals (collapsible, constant, inverted, redundant, unnecessary else, early exit), dead code, goto and finally blocks report each statement that has the documented defect exactly once and report no statement that does not, in any surrounding context and nesting.',
 ['programs'], 'all programs placing such statements at any depth and in any context',
 'Tests check small fixed snippets; interactions with nesting, macros, lambdas, blocks and class members are open.',
 ['oclint-rules/rules/basic', 'oclint-rules/rules/convention', 'oclint-rules/rules/redundant'],
 [('rule visitors', 'oclint-rules/rules/basic, convention, redundant')],
 observe=['reported violations'])

prop('C16', 'Expression rules report exactly the documented expression patterns',
 'The rules on expressions (bitwise operator in a condition, broken, misplaced or redundant null checks, broken oddness checks, constant or redundant conditional operators, double negatives, multiple unary operators, useless parentheses, assignment to parameters, unnecessary null check before delete) report each expression that has the documented defect exactly once and report no expression that does not, in any surrounding context.',
 ['programs'], 'all expressions in all contexts',
 'Tests check small fixed snippets.',
 ['oclint-rules/rules/basic', 'oclint-rules/rules/convention', 'oclint-rules/rules/redundant', 'oclint-rules/rules/abstract/AbstractNullCheckRule.h', 'oclint-rules/lib/util/ASTUtil.cpp'],
 [('rule visitors', 'oclint-rules/rules/basic, convention, redundant')],
 observe=['reported violations'])

prop('C17', 'Naming and unused-code rules report exactly the offending declarations',
 'Variable-name-length rules report exactly the declared variables whose name is longer or shorter than the threshold, with the documented exemptions (loop counters, catch parameters, ...); unused-variable, unused-parameter and redundant-local-variable rules report exactly the named local variables and parameters that are never referenced (or only returned), with the documented exemptions (overrides, prototypes, empty or system bodies, RAII types, explicit unused marks). Each is reported once, at its declaration.',
 ['programs', 'configurations'], 'all programs and thresholds',
 'Tests check small fixed snippets.',
 ['oclint-rules/rules/naming', 'oclint-rules/rules/unused', 'oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp'],
 [('rule visitors', 'oclint-rules/rules/naming, unused')],
 observe=['reported violations'])

prop('C18', 'C++ class-design rules report exactly the offending declarations',
 'The rules on destructors of base and of virtual classes, default arguments on virtual methods and private static members report each class or member that has the documented defect exactly once, and report no other, for any class hierarchy, access specifier, template or nesting, in-class or out of class.',
 ['programs'], 'all class hierarchies',
 'Tests check small fixed snippets.',
 ['oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp', 'oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp', 'oclint-rules/rules/design'],
 [('rule visitors', 'oclint-rules/rules/design, convention')],
 observe=['reported violations'])

prop('C19', 'Objective-C rules report exactly the documented defects',
 'The Objective-C rules (equality without hash, must-call-super, prohibited calls, protected methods, methods a subclass must implement, direct instance-variable assignment, and the literal, boxing, container-literal and subscripting migrations) report each method, class or expression with the documented defect exactly once and report no other, for any class hierarchy, category, extension and protocol arrangement.',
 ['programs'], 'all Objective-C class hierarchies and message expressions',
 'Tests check small fixed snippets.',
 ['oclint-rules/rules/cocoa', 'oclint-rules/rules/migration', 'oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp', 'oclint-rules/lib/helper/EnforceHelper.cpp', 'oclint-rules/lib/util/ASTUtil.cpp'],
 [('rule visitors and enforce helpers', 'oclint-rules/rules/cocoa, migration')],
 observe=['reported violations'])

prop('C20', 'Rules apply to exactly the languages they are meant for',
 'A rule examines a source exactly when the source is in a language the rule supports: rules restricted to Objective-C or C++ stay silent on every other source, rules for all languages give the same verdict on the same C code whether it is compiled as C, C++, Objective-C or Objective-C++ (Objective-C++ counts as Objective-C; rules that depend on types or constant evaluation, which differ between C and C++, apart), and in CUDA sources a rule judges functions with device-side attributes exactly when it supports them.',
 ['programs', 'configurations'], 'all programs valid in several languages, and all language modes and standards',
 'Tests run each rule in one or two languages on fixed snippets.',
 ['oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/lib/AbstractASTMatcherRule.cpp'],
 [('isLanguageSupported / supportedLanguages / supportedCUDAFunctionAttrs', 'AbstractASTRuleBase.cpp')],
 observe=['reported violations per language mode'])

prop('C21', 'No source program crashes or corrupts the analysis',
 'On every source program the compiler front end itself handles, with every rule enabled, analysis and reporting finish normally, without crash, hang, out-of-bounds access, use of freed memory or undefined behaviour, for all C, C++ and Objective-C constructs including degenerate ones (empty bodies, unnamed declarations, macros, templates, lambdas, blocks, function-try-blocks, missing superclasses, forward-declared classes); sources with errors are reported as errors and never crash either.',
 ['programs'], 'all programs accepted (or rejected) by the front end',
 'Tests cover fixed, mostly well-behaved snippets without sanitizers.',
 ['oclint-rules', 'oclint-core', 'oclint-metrics', 'oclint-driver', 'oclint-reporters'],
 [('null and kind checks', 'everywhere')],
 observe=['AddressSanitizer/UndefinedBehaviorSanitizer reports, signals, exit statuses'])

prop('C22', 'Rules built on the framework are given every node, match and line of each source exactly once',
 'A rule that a user builds on the base classes is told about everything in each analysed main file, exactly once and in order, and about nothing else: a visitor rule is given every node (in the default traversal order of clang\'s recursive visitor) of every top-level declaration that begins in the main file, also when the declaration or its tokens come from macros or parts of it are included from elsewhere, and of no declaration that begins in another file; if it ends the traversal of one top-level declaration, it is still given the next; a matcher rule gets one callback for each of its own matchers and each node that matches, and none for the matchers of another rule or of an earlier source; a source reader rule is given every line of the file, numbered from 1, with exactly its text without the newline, whether or not the last line ends with one. Visitor and matcher rules are set up before and torn down after each source in a language they support, once, and not at all for another. Everything they report, as a declaration, statement, range of locations or position in the file, is in the results, where it stands in the file. This holds for any sources, any number of them in a run, with or without global analysis.',
 ['programs', 'histories'], 'all sources, sequences of sources and rules on the base classes',
 'The tests of the base classes run one rule over one tiny snippet in memory.',
 ['oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/lib/AbstractASTMatcherRule.cpp', 'oclint-rules/lib/AbstractSourceCodeReaderRule.cpp', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-core/lib/RuleCarrier.cpp', 'oclint-driver/lib/RulesetBasedAnalyzer.cpp'],
 [('apply, setUp, tearDown, addViolation of the base classes', 'oclint-rules/lib/Abstract*.cpp, include/oclint/AbstractASTVisitorRule.h')],
 observe=['events logged by rules on each base class', 'reported violations'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
