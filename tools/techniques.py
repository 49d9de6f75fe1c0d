REAL = 'runtime monitoring of the sanitized oclint program (ASan+UBSan): '
TR = 'Held on everything explored; the evidence file states how much and what was met. '
T.update({
 'C01': (REAL + 'scripted result sets sent through the real reporters, reports read back by standard parsers and compared with what was reported',
         TR + 'Trusted: Python\'s JSON and expat parsers, the scripting rule plugin.'),
 'C02': (REAL + 'scripted result sets sent through the real reporters, reports read back by line grammar and by a tag-balance-checking HTML parser',
         TR + 'Trusted: the report grammar in checks/C02.py, Python\'s html.parser.'),
 'C03': (REAL + 'trace checking of the results API under random query histories over scripted collections of duplicates and near duplicates',
         TR + 'Trusted: the scripting and event plugins.'),
 'C04': (REAL + 'fault injection at every stage (options, rules, reporter, sources, output: missing directory, full device, size limit, closed descriptor), status and report compared with a model of the run',
         TR + 'Trusted: the model of the run in checks/C04.py.'),
 'C05': (REAL + 'random layered selections; listing, filter and rules that ran compared with a reference computation',
         TR + 'Trusted: the reference computation in checks/C05.py.'),
 'C06': (REAL + 'random layered settings; effective options dumped from inside the running program, and end-to-end effects, compared with a reference computation',
         TR + 'Trusted: the reference computation and YAML writer in checks/C06.py.'),
 'C07': (REAL + 'differential oracle over generated programs: the same program with live and disarmed suppressions (nothing moves), the difference compared with what the suppressions cover',
         TR + 'Trusted: clang\'s AST dump of annotated declarations, which the covered set is computed from.'),
 'C08': (REAL + 'metamorphic oracle: generated programs laid out anew, every reported position compared with where the layout put the tokens',
         TR + 'Trusted: the layouter, which knows where it put each token.'),
 'C09': (REAL + 'differential oracle: results of each source alone against its results in company, order, repetition, global analysis and rule subsets',
         TR + 'Trusted: nothing but the event plugin; wrong results that are wrong in every history alike are for other properties.'),
 'C10': (REAL + 'random projects; a rule plugin records every translation unit analysed, directory snapshots before and after, compared with what the compile commands mean',
         TR + 'Trusted: the model of compile commands in checks/C10.py (the flags it covers are listed in the evidence).'),
 'C11': (REAL + 'differential oracle: errors, warnings and findings in the results against the same compiler library used without oclint',
         TR + 'Trusted: clang itself.'),
 'C20': (REAL + 'probe rules for every language and CUDA mask, and the same programs compiled in several languages, compared rule by rule',
         TR + 'Trusted: the table of documented language restrictions in checks/C20.py.'),
 'C21': (REAL + 'hostile and mutated programs with every rule and reporter; AddressSanitizer, UndefinedBehaviorSanitizer, hang and signal detection',
         TR + 'Crashes and hangs of clang\'s own front end (confirmed without oclint) are set aside.'),
 'C22': (REAL + 'rules on every base class of the framework log what they are given; trace compared with what a reference rule finds by a traversal of its own and with the files as they stand',
         TR + 'Trusted: clang\'s recursive visitor in its default settings, the reference in harness/plugin_frame.cpp.'),
})
