#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so the long texts stay reviewable).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","A file's findings do not depend on what else the run analyzes",
 "The violations, compiler errors and compiler warnings reported for a translation unit are the same whether it is analyzed alone or inside any batch: before, after or between any other translation units (including ones that fail to compile), in any order, several times, and with or without global analysis. Two compile commands for the same file name (different flags or different directories) are each analyzed on their own content.",
 ["histories","inputs","configurations"],
 "every sequence of translation units in one run, every file content, per-file and global analysis mode, every rule",
 "Rule unit tests run one snippet in a fresh tool with fresh rule state; no test runs one rule object over two translation units, so state kept by rules, helpers or the driver between translation units is never exercised.",
 ["oclint-driver/lib/Driver.cpp","oclint-driver/lib/CompilerInstance.cpp","oclint-driver/lib/RulesetBasedAnalyzer.cpp","oclint-core/lib/RuleBase.cpp","oclint-rules/lib/helper/SuppressHelper.cpp","oclint-rules/include/oclint/AbstractASTVisitorRule.h","oclint-rules/rules"],
 [("one compiler instance and one carrier per translation unit","oclint-driver/lib/Driver.cpp:invoke, oclint-driver/lib/RulesetBasedAnalyzer.cpp:analyze"),("setUp/tearDown of rule state around each traversal","oclint-rules/include/oclint/AbstractASTVisitorRule.h"),("suppression caches","oclint-rules/lib/helper/SuppressHelper.cpp")],
 ["report contents per file (json/xml/pmd/text)"],
 [("rule member fields","state of the long-lived rule objects","oclint-rules/rules/**"),("singleLineMapping/rangeMapping","suppressed lines/ranges remembered between queries","oclint-rules/lib/helper/SuppressHelper.cpp")])

prop("C02","Rules do not influence each other",
 "The violations a rule reports depend only on the source and on that rule's configuration: they are the same whichever other rules are loaded or enabled, and in whatever order the rule libraries are listed by the directory and loaded. Enabling or disabling a rule adds or removes exactly that rule's violations.",
 ["configurations","schedules","inputs"],
 "every subset of enabled rules, every directory listing order, every source",
 "Tests construct a single rule; the order in which readdir returns plugins and the combination of rules in one process are never varied.",
 ["oclint-driver/rules_dlfcn_port.cpp","oclint-driver/lib/RulesetFilter.cpp","oclint-driver/lib/RulesetBasedAnalyzer.cpp","oclint-core/lib/RuleSet.cpp","oclint-rules/rules"],
 [("rule registration at library load","oclint-core/lib/RuleSet.cpp"),("filtering by identifier","oclint-driver/lib/RulesetFilter.cpp")],
 ["report contents per rule"])

prop("C03","Every finding reaches every report exactly once, intact",
 "Each violation found appears in the report with its path, line, column, rule, category, priority and message unchanged: exactly once when duplicates are not allowed (two findings are duplicates only if all these fields and the end position agree), and as often as it was found when they are allowed. Summary counts equal the listed items. Reports in the machine formats (json, xml, pmd) are well formed and decode back to exactly these values for all text, including quotes, markup, backslashes and control characters that the format can represent.",
 ["inputs","histories","configurations"],
 "every multiset of violations produced by rules over any history of files, all text contents, all six report formats, both duplicate modes",
 "Reporter tests print one or two fixed violations with plain text and compare strings; de-duplication is tested on a handful of pairs, never on collisions, large sets or text needing escapes.",
 ["oclint-core/lib/ResultCollector.cpp","oclint-core/lib/RawResults.cpp","oclint-core/lib/UniqueResults.cpp","oclint-core/lib/AbstractResults.cpp","oclint-core/lib/Violation.cpp","oclint-core/lib/RuleCarrier.cpp","oclint-reporters/reporters"],
 [("hash-set based removal of duplicates","oclint-core/lib/UniqueResults.cpp"),("per-format writers","oclint-reporters/reporters/*.cpp")],
 ["report file and standard output"])

prop("C04","A run that reports success has delivered the complete report",
 "If the process ends with a status that claims reporting was done (success, violations over threshold, or compilation errors), the complete report is at the requested destination and nothing else is left in that file, whatever it held before. If the destination cannot be opened, or writing or closing it fails at any point, the run ends with the error-while-reporting status. A run that stops before reporting leaves an earlier report untouched.",
 ["fault_sequences","crash_points","histories"],
 "every failing or short write, flush, open or close on the report destination or standard output, every kill point, every earlier content of the destination, every report size and format",
 "No test writes a report to a file at all, and none injects an I/O error; full disks and short writes cannot be produced by unit tests of the reporters, which write into string streams.",
 ["oclint-driver/main.cpp","oclint-driver/lib/Options.cpp","oclint-reporters/reporters"],
 [("opening the report destination","oclint-driver/main.cpp:outStream"),("closing it","oclint-driver/main.cpp:disposeOutStream"),("error mapping","oclint-driver/main.cpp:main")],
 ["exit status","bytes in the report file","standard output"])

prop("C05","The exit status follows the documented contract in every situation",
 "Every run terminates by itself with the documented status: success only if no compiler error was reported and, for each priority, the number of reported violations is at most that priority's maximum; compilation errors if any compiler error was reported, even when violations also exceed a threshold; otherwise violations-exceed-threshold; and the specific failure statuses (rules not found, reporter not found, processing, reporting, option errors) for the corresponding failures. No failing system call, missing file, or exception thrown by analysis or reporting makes the process crash, hang or end with a success status it did not earn.",
 ["fault_sequences","inputs","configurations","histories"],
 "every combination of violation counts, thresholds (including negative and very large), compiler errors, options and failing system calls",
 "main() is not linked into any test; the exit status logic, its precedence and its failure paths are untested.",
 ["oclint-driver/main.cpp","oclint-driver/include/oclint/ExitCode.h","oclint-core/lib/AbstractResults.cpp","oclint-driver/lib/Driver.cpp"],
 [("handleExit and numberOfViolationsExceedThreshold","oclint-driver/main.cpp"),("exception to status mapping","oclint-driver/main.cpp")],
 ["exit status","standard error","report contents"])

prop("C06","Configuration layers combine with the documented precedence",
 "The effective settings of a run are: command line over project .oclint over home .oclint over installation etc/oclint over built-in defaults, for output, report type, thresholds, boolean switches and rule parameters; rule paths accumulate over all layers; a rule is enabled or disabled as the last layer naming it says. A setting absent from a layer leaves earlier layers' values in force, a missing layer changes nothing, and every rule sees the same value for a given parameter during the whole run.",
 ["configurations","inputs","fault_sequences"],
 "every assignment of settings to layers, every file size, line-ending and quoting style, missing or unreadable layers, every home directory situation",
 "Config file tests parse single small files directly; layering, the process-wide option state and the lifetime of parsed text over large, quoted or escaped values are not tested.",
 ["oclint-driver/lib/Options.cpp","oclint-driver/lib/ConfigFile.cpp","oclint-driver/lib/RulesetFilter.cpp","oclint-core/lib/RuleConfiguration.cpp"],
 [("processConfigFiles and updateArgIfSet","oclint-driver/lib/Options.cpp"),("YAML mapping","oclint-driver/lib/ConfigFile.cpp"),("last writer wins map","oclint-core/lib/RuleConfiguration.cpp")],
 ["enabled rule list on standard output","values seen by rules","chosen report type, destination, exit status"])

prop("C07","Suppression hides exactly what it is asked to hide",
 "A //!OCLINT comment hides the violations that start on its own line and no others; an oclint:suppress annotation on a declaration hides the violations inside it, and an oclint:suppress[rule] annotation hides only that rule's violations inside it. This holds for every rule and every file, whatever files, flags or rules were processed before.",
 ["histories","inputs"],
 "every placement of suppression comments and annotations, every order of files including same-named files in different directories and one file under different flags, every set of rules",
 "Suppression tests use one file called input.cc in a process that forgets everything afterwards; wrong answers remembered from another file, another set of flags or another rule cannot show.",
 ["oclint-rules/lib/helper/SuppressHelper.cpp","oclint-rules/lib/helper/AttributeHelper.cpp","oclint-rules/lib/AbstractASTRuleBase.cpp","oclint-rules/lib/AbstractSourceCodeReaderRule.cpp"],
 [("line based suppression with a cache","oclint-rules/lib/helper/SuppressHelper.cpp:lineBasedShouldSuppress"),("range based suppression with a cache","oclint-rules/lib/helper/SuppressHelper.cpp:rangeBasedShouldSuppress"),("annotation lookup through parents","oclint-rules/lib/helper/SuppressHelper.cpp:markedParentsAsSuppress")],
 ["report contents"],
 [("singleLineMapping","suppressed lines per file","oclint-rules/lib/helper/SuppressHelper.cpp"),("rangeMapping","suppressed ranges per file","oclint-rules/lib/helper/SuppressHelper.cpp")])

prop("C08","An unreadable input is never mistaken for clean code",
 "If reading a requested source file, a header it needs, or the compilation database fails, the failure is visible: an error in the report with the compilation-errors status, or one of the failure statuses with a message; a requested file without a compile command is named as skipped. A compilation database or response file that cannot be loaded is at least reported on standard error before the run goes on without it. Failures confined to one translation unit do not change what is reported for the others, and interrupted or partial reads that the system completes on retry change nothing.",
 ["fault_sequences","inputs","histories"],
 "every failing, short or interrupted open, stat, read, map or directory change while inputs are processed, at every point of the run",
 "Tests map files from memory; no test makes an open, stat, read or chdir fail or return short.",
 ["oclint-driver/lib/Driver.cpp","oclint-driver/lib/CompilerInstance.cpp","oclint-driver/lib/DiagnosticDispatcher.cpp","oclint-driver/main.cpp"],
 [("diagnostics turned into errors","oclint-driver/lib/DiagnosticDispatcher.cpp"),("skip message","oclint-driver/lib/Driver.cpp:constructCompileCommands"),("directory change failure","oclint-driver/lib/Driver.cpp:constructCompilers")],
 ["report errors, exit status, standard error"])

prop("C09","Plugin loading is complete or fails loudly",
 "Every non-hidden entry of each rule directory is loaded exactly once before analysis, and the reporter used is the one whose name was asked for, in whatever order the directories are listed. If an entry cannot be loaded, or no rule or no matching reporter is available, the run stops with the rule-not-found or reporter-not-found status before analyzing or writing a report; hidden entries are ignored, and the list of enabled rules printed on request is the set of rules the analysis then uses.",
 ["schedules","fault_sequences","configurations"],
 "every listing order, every failing directory open, listing, library load or symbol lookup, every set of rule paths",
 "The plugin loaders are compiled into the executable only; no test links them.",
 ["oclint-driver/rules_dlfcn_port.cpp","oclint-driver/reporters_dlfcn_port.cpp","oclint-driver/main.cpp","oclint-core/lib/RuleSet.cpp","oclint-driver/lib/RulesetFilter.cpp"],
 [("rule loader","oclint-driver/rules_dlfcn_port.cpp"),("reporter loader","oclint-driver/reporters_dlfcn_port.cpp"),("prepare","oclint-driver/main.cpp")],
 ["exit status","standard error","enabled rule list","violations of each rule"])

prop("C10","Reports are a deterministic function of the inputs",
 "Two runs with the same inputs and configuration produce byte-identical reports and the same exit status (the generation time aside), whatever the memory layout, the content of recycled memory, file timestamps and inode numbers, unrelated environment variables, unrelated files, or the speed and granularity of I/O.",
 ["schedules","inputs"],
 "every heap placement and reuse pattern, every content of fresh and freed memory, every clock, every unrelated environment and file metadata, every split of reads and writes",
 "A test process has one memory layout and never compares two executions; iteration over address-ordered containers and reads of uninitialised or freed memory pass by luck.",
 ["oclint-rules/rules","oclint-rules/lib","oclint-metrics/lib","oclint-core/lib/UniqueResults.cpp","oclint-driver/lib/ConfigFile.cpp","oclint-driver/lib/CompilerInstance.cpp"],
 [("vector ordered collection of results","oclint-core/lib/ResultCollector.cpp, oclint-core/lib/UniqueResults.cpp")],
 ["report bytes","exit status"])

prop("C11","Generation times in reports are the clock's time",
 "The generation time printed in a report (xml date and time in UTC, json epoch seconds, html local time) is the system clock's time at the moment of reporting, for every clock value and time zone, and lies between the start and the end of the run when the clock does not step back. Nothing else in the report depends on the clock.",
 ["schedules","inputs"],
 "every clock value (month ends, leap days, beyond 32-bit seconds, before the epoch), every time zone, clock jumps during the run",
 "Tests cannot control the clock; they compare no time fields.",
 ["oclint-reporters/reporters/XMLReporter.cpp","oclint-reporters/reporters/JSONReporter.cpp","oclint-reporters/reporters/HTMLReporter.cpp"],
 [("writeDatetime","oclint-reporters/reporters/XMLReporter.cpp"),("timestamp","oclint-reporters/reporters/JSONReporter.cpp"),("footer","oclint-reporters/reporters/HTMLReporter.cpp")],
 ["report contents"])

prop("C12","Paths keep their meaning while the tool changes directories",
 "A relative output path and the project configuration file are resolved against the directory the tool was started in, default rules, reporters and the installation configuration against the directory of the executable, however deep or oddly named these directories are, however the executable was invoked, and whichever directories the compile commands ran in. The report is written at that path only, and no other file is created or modified.",
 ["configurations","histories","fault_sequences"],
 "every start directory (any depth, spaces, symbolic links), every way of naming the executable, every sequence of compile command directories, failing getcwd",
 "Options tests call accessors in the test's own directory; the interplay of directory changes by compile commands with output and plugin paths is never run.",
 ["oclint-driver/lib/Options.cpp","oclint-driver/lib/Driver.cpp","oclint-driver/main.cpp"],
 [("preserveWorkingPath, preserveExecutablePath, outputPath","oclint-driver/lib/Options.cpp"),("chdir per compile command","oclint-driver/lib/Driver.cpp")],
 ["files created or changed by the run"])

prop("C13","Every compile command is analyzed exactly once, as written",
 "For each requested source, every compile command recorded for it is analyzed exactly once, in request and database order, from that command's directory and with that command's defines, include paths, language and warning flags, plus __OCLINT__ defined; nothing else is analyzed. Output, code-generation and module flags in a command change neither the findings nor the file system, and the same holds with and without global analysis and with the clang static analyzer pass enabled.",
 ["configurations","inputs","histories"],
 "every compilation database (one or many commands per file, relative and absolute names, quoting, command and arguments forms) and every list of requested sources, or flags given after --",
 "Driver.cpp is not built by any test; the argument adjustment, directory switching and per-command loops have no tests.",
 ["oclint-driver/lib/Driver.cpp","oclint-driver/lib/CompilerInstance.cpp"],
 [("constructCompileCommands, adjustArguments, newCompilerInvocation, constructCompilers, invokeClangStaticAnalyzer","oclint-driver/lib/Driver.cpp")],
 ["report contents","rules' view of each translation unit"])

prop("C14","Compiler and static-analyzer diagnostics are classified faithfully",
 "Every compiler error and warning raised while processing the requested files is reported as such, with the location and text the compiler gave it (the expansion point for macros) and never as the other kind; notes and remarks are not reported as findings. A translation unit with errors contributes its errors and no rule violations; static-analyzer findings appear only in the static-analyzer section, only when that pass is enabled, and its first pass findings do not change.",
 ["inputs","histories","configurations"],
 "every mix of valid, warning and failing translation units, macro locations, fatal errors, warning options, in per-file and global mode, with the analyzer pass on or off",
 "The dispatcher test formats a few hand-made diagnostics; no test runs the compiler through the driver and compares with the compiler's own diagnostics.",
 ["oclint-driver/lib/DiagnosticDispatcher.cpp","oclint-driver/lib/Driver.cpp","oclint-driver/lib/CompilerInstance.cpp","oclint-core/lib/ResultCollector.cpp"],
 [("HandleDiagnostic","oclint-driver/lib/DiagnosticDispatcher.cpp"),("skip of failed units","oclint-driver/lib/Driver.cpp:constructCompilers")],
 ["error, warning and checker sections of the reports","exit status"])

prop("C15","Metric values equal their published definitions",
 "Cyclomatic complexity, NPath complexity, non-commenting source statements and statement depth computed for a function equal their published definitions for every function body.",
 ["programs"],"every C, C++ and Objective-C function body",
 "Tests sample some dozens of bodies.",
 ["oclint-metrics/lib"],[("metric visitors","oclint-metrics/lib/*.cpp")],["values in violation messages"])

prop("C16","Each rule flags exactly the pattern its documentation describes",
 "Each of the rules reports a violation at precisely the code constructs its documentation describes and at no others.",
 ["programs"],"every program",
 "Tests sample a few snippets per rule.",
 ["oclint-rules/rules"],[("rule visitors and matchers","oclint-rules/rules/**")],["report contents"])

prop("C17","Every program the compiler accepts is analyzed to the end",
 "For every translation unit that the compiler accepts without errors - in C, C++, Objective-C or Objective-C++, under any language standard, however unusual the code - every enabled rule, under any thresholds and in any order, finishes: the tool does not crash, abort or hang, no exception or rule cuts the analysis short, later rules and units are still analyzed, and the report is written with the status its content calls for. Units the compiler rejects do not hinder the others. Each reported violation lies at a line that exists in a file of the program (or where a #line directive puts it).",
 ["programs","configurations","histories"],
 "every program the compiler accepts (all standards, extensions, templates, odd formatting, empty or huge constructs), every set, order and threshold of rules, every position in a batch, every memory state",
 "Rule tests feed each rule a few snippets that it is about; no test feeds a rule the constructs that other rules, language versions or extensions bring, nor extreme thresholds.",
 ["oclint-rules/rules","oclint-rules/lib","oclint-rules/include/oclint/AbstractASTVisitorRule.h","oclint-metrics/lib","oclint-driver/lib/RulesetBasedAnalyzer.cpp","oclint-driver/lib/Driver.cpp"],
 [("traversal of every declaration by every rule","oclint-rules/include/oclint/AbstractASTVisitorRule.h:apply, oclint-driver/lib/RulesetBasedAnalyzer.cpp:analyze"),("null and kind checks on AST nodes","oclint-rules/rules/**, oclint-metrics/lib/*.cpp"),("places of violations","oclint-rules/lib/AbstractASTRuleBase.cpp:addViolation")],
 ["exit status or signal","report contents"])

prop("C18","What a unit needed is given back before the next unit is analyzed",
 "Without global analysis, and always in the static analyzer pass, the tool releases the compiler, syntax tree, file contents, descriptors and file mappings of a unit before it turns to the next one - whether the unit was analyzed, was rejected by the compiler at any point, or could not be read. What stays in memory because of a unit is bounded by the findings reported for it (and a small constant), never proportional to its size; no descriptor or mapping stays open. A batch of any length therefore runs within the memory and descriptors that its largest unit needs, with the same results.",
 ["programs","histories","faults"],
 "every batch of units (analyzed, rejected early or late, unreadable, for unknown targets, repeated), every set of rules, every length of the batch, every heap layout",
 "Unit tests run one small translation unit per process and never look at what is left; the growth shows only over a batch, as a run that dies on a large project.",
 ["oclint-driver/lib/Driver.cpp","oclint-driver/lib/CompilerInstance.cpp","oclint-driver/lib/RulesetBasedAnalyzer.cpp","oclint-core/lib/RuleCarrier.cpp","oclint-rules/include/oclint"],
 [("release of compilers after a unit, after a rejected unit and in the analyzer pass","oclint-driver/lib/Driver.cpp:invoke, constructCompilers, invokeClangStaticAnalyzer; oclint-driver/lib/CompilerInstance.cpp:end"),("-enable-global-analysis is the option with high memory load","oclint-driver/lib/Options.cpp:argGlobalAnalysis")],
 ["memory and descriptors of the process","exit status","report contents"])

prop("C19","The documentation generator documents every loaded rule exactly once, or fails",
 "oclint-docgen writes, for the rules that the rule directories hold, an index with the number of rules and each category once in order, and per category one file with every rule of the category exactly once in order of identifier - identifier, version, name, description, link, example, thresholds, suppression and additional text as the rule gives them - and the time of generation. Status 0 means that all files are written completely and replace whatever was there; when rules cannot be loaded, options are wrong, or a file cannot be opened, written or closed, it fails with a message, and touches no other file.",
 ["configurations","faults","environments"],
 "every set of rules, categories and texts, every listing order, every earlier content of the output directory, every failing call on the output or the rule directories",
 "No test runs the generator.",
 ["oclint-driver/main_docgen.cpp","oclint-driver/rules_dlfcn_port.cpp","oclint-core/lib/RuleBase.cpp"],
 [("grouping, sorting and writing","oclint-driver/main_docgen.cpp:main, writeRuleToCategory"),("failure statuses","oclint-driver/main_docgen.cpp:prepare, finish")],
 ["generated files","exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
