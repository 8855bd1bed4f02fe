#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["richard/"+f for f in files],
            state=[dict(name=a, meaning=b, where="richard/"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="richard/"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01","The parser returns every reading of a sentence, each exactly once",
 "For every grammar without empty or cyclic rules and every input text, parsing returns exactly the derivation trees the grammar assigns to the whole text: every such tree is returned, nothing that is not such a tree is returned, and none is returned twice. "
 "A category only combines with rules that have the same number of arguments, word forms match the text case-insensitively, every non-empty prefix of a regular-expression match is a candidate token, a run of white space in the text counts as one space, and rules with identical syntax count as one rule (the first).",
 ["inputs","programs"],"all grammars (ambiguous, left/right recursive, optional words, morphology without separators, regexps) and all texts",
 "The tests parse a few dozen fixed sentences and mostly look only at the first tree; completeness and non-duplication over all grammars and texts is never asserted.",
 ["processor/parser/BasicParser.py","processor/parser/earley/EarleyParser.py","processor/parser/earley/tree_extract.py","processor/parser/earley/entity/Chart.py","processor/parser/earley/entity/ChartState.py","entity/GrammarRules.py"],
 [("predict/scan/complete","processor/parser/earley/EarleyParser.py"),("child sequence and permutation enumeration","processor/parser/earley/tree_extract.py")],
 [("chart states","Earley items per end position","processor/parser/earley/entity/Chart.py")],["BasicParser.process","EarleyParser.parse"])

prop("C02","Parsing is repeatable and a learned grammar rule takes effect at once",
 "Processing a sentence never changes the grammar: the result of parsing a text depends only on the text and the rules in the grammar, not on which sentences were parsed before, how often, or by which other parser sharing the grammar. "
 "A grammar rule learned during a dialogue is available to every later sentence, with exactly the readings it adds, and leaves all existing readings intact.",
 ["histories"],"all sequences of parse and learn-rule steps over any grammar",
 "Each test builds a fresh grammar and parses a fixed script; no test compares a parse before and after other activity, and no test learns a grammar rule.",
 ["processor/parser/earley/EarleyParser.py","entity/GrammarRules.py","module/GrammarModule.py"],
 [("chart construction","processor/parser/earley/EarleyParser.py"),("learn_grammar_rule","module/GrammarModule.py"),("add_rule","entity/GrammarRules.py")],
 [("index","rules by category and argument count","entity/GrammarRules.py")],["BasicParser.process","learn_grammar_rule relation"])

prop("C03","Readings are tried in a fixed order of preference",
 "The parser hands the readings of a sentence on in order of preference: a higher total boost (the sum of the boosts of all rules used) comes first, among equals fewer regular-expression tokens come first, and among those deeper trees come first. "
 "Ordering loses, adds or alters no reading.",
 ["inputs","programs"],"all grammars with boosts (positive, zero, negative) and all ambiguous texts",
 "The tests contain a handful of ambiguous sentences and only see the winner.",
 ["processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py","processor/parser/tree_sort_heuristics/SortByBoost.py","processor/parser/tree_sort_heuristics/SortByRegExpCount.py","processor/parser/tree_sort_heuristics/SortByTreeDepth.py"],
 [("stable sorts in increasing priority","processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py")],[],["BasicParser.process products"])

prop("C04","Every sentence is answered: understood, or a correct failure report",
 "A text that has no reading is reported as exactly one of: unknown word (carrying the text starting at the first position that no recognised constituent or token reaches beyond, at most nine characters followed by ' ...'), no sentence (the empty text), or not understood (everything was recognised but it is no complete sentence); a text with a reading is never reported as a failure. "
 "Entering such a text, with no output pending, into a system with the standard output buffer and write grammar raises nothing and makes the next output the corresponding message.",
 ["inputs","programs"],"all grammars and all texts, including the empty text, prefixes of sentences and texts with unknown words at any position",
 "One test checks two failing sentences; the empty text and incomplete sentences are never entered into a system.",
 ["processor/parser/earley/EarleyParser.py","processor/parser/earley/unknown_word.py","core/System.py","module/BasicOutputBuffer.py","grammar/en_us_write.py"],
 [("find_unknown_word","processor/parser/earley/unknown_word.py"),("error output","core/System.py")],[],["System.enter","System.read_output","BasicParser.process"])

prop("C05","Optional words and separators accept exactly the intended texts",
 "A syntax rule stands for the set of word sequences obtained by independently keeping or leaving out each optional constituent: between two neighbouring kept constituents there is one space, no space when joined by '+', and an optional space when joined by '~', and a left-out constituent leaves no dangling space behind (the join written before the next kept constituent is the one that counts). "
 "The grammar accepts a text if and only if it is such a sequence.",
 ["programs","inputs"],"all syntax strings with up to five constituents of which at least one is not optional, any placement of '?', '+', '~', and all texts",
 "The tests use optional words in a few fixed positions only.",
 ["entity/GrammarRules.py","processor/parser/helper/SimpleGrammarRulesParser.py"],
 [("create_rule_variants","entity/GrammarRules.py"),("parse_syntax","processor/parser/helper/SimpleGrammarRulesParser.py")],[],["SimpleGrammarRulesParser.parse_read_grammar + BasicParser.process"])

prop("C06","The pipeline tries interpretations in order and reports the right outcome",
 "For every pipeline of find-one, find-all and try-first blocks, alternatives are processed depth first in the order produced: find-one stops at the first alternative for which the rest of the pipeline succeeds, find-all continues through all of them and keeps all products of every pass, try-first tries only the first; each processor sees, as current product of every earlier processor, the alternative on whose behalf it is called. "
 "A block succeeds iff its own processor does and some tried alternative makes the rest succeed; otherwise it reports its processor's error or the first error among the alternatives tried.",
 ["configurations","fault_sequences"],"all pipelines (any mix and number of blocks), any positive number of products per processor call, any pattern of failures",
 "The tests only run two or three fixed pipelines in which almost nothing fails.",
 ["block/FindOne.py","block/FindAll.py","block/TryFirst.py","block/Succeed.py","core/System.py","entity/SentenceRequest.py"],
 [("process of each block","block/FindOne.py"),("linking","core/System.py")],
 [("current_products","active alternative per processor","entity/SentenceRequest.py"),("alternative_products","all alternatives per processor","entity/SentenceRequest.py")],
 ["System.enter","SentenceRequest.get_current_product","SentenceRequest.get_alternative_products"])

prop("C07","Composition never confuses or captures variables",
 "For grammars in which the arguments of a rule's own category are distinct, in the meaning composed for a sentence two variable occurrences are the same variable if and only if the grammar identifies them: the arguments a rule shares with its constituents are unified, and every other variable of a rule, wherever it occurs in its meaning, is distinct for each use of the rule, from every variable of every other constituent, and from every variable of every other sentence of the dialogue. "
 "A reified variable that names a syntactic argument of the rule yields the name of the variable it stands for.",
 ["programs","inputs","histories"],"all parse trees over all grammars, including recursive rules and rules whose private variables occur at top level or only inside nested atom lists",
 "Tests compare a few composed meanings literally.",
 ["processor/semantic_composer/SemanticComposer.py","processor/semantic_composer/helper/VariableGenerator.py"],
 [("create_map","processor/semantic_composer/SemanticComposer.py"),("extend_map_with_semantics","processor/semantic_composer/SemanticComposer.py"),("unify_variables","processor/semantic_composer/SemanticComposer.py")],
 [("number","last generated variable","processor/semantic_composer/helper/VariableGenerator.py")],["SemanticComposer.process product"])

prop("C08","A sentence means the composition of its parts' meanings",
 "The meaning, the executable part and the inferences of every parse tree are exactly those obtained bottom-up: each rule's function is applied to the meanings of its non-word constituents in order (a regular-expression token contributes its text), templates receive their arguments in place, a rule's own executable replaces those of its constituents, and inferences of all constituents accumulate in order. "
 "A tree that uses a rule without a meaning is rejected, never silently given a partial meaning.",
 ["programs","inputs"],"all parse trees over all grammars built from lists, templates, executables and inference attachments",
 "Tests compare a few composed meanings literally.",
 ["processor/semantic_composer/SemanticComposer.py","processor/parser/helper/grammar_functions.py","type/SemanticTemplate.py"],
 [("compose","processor/semantic_composer/SemanticComposer.py"),("apply","processor/parser/helper/grammar_functions.py")],[],["SemanticComposer.process product"])

prop("C09","Solving a conjunction yields exactly the joined answers",
 "Solving a list of goals over facts, whether stored in a data source or given by a relation in code, returns exactly the bindings that extend the given binding and make every goal a fact: the natural join of the matching rows, each distinct binding once, in depth-first order of the rows, and the empty list of goals yields just the given binding. "
 "Constants, already bound variables and repeated variables restrict the rows, for every value including 0, the empty string and False, and the caller's binding is left unchanged.",
 ["inputs","programs"],"all goal lists, fact bases and initial bindings",
 "The solver test has three queries over one small table.",
 ["core/Solver.py","core/Model.py"],
 [("solve","core/Solver.py"),("create_solve_single_results","core/Solver.py"),("model_values_2_db_values","core/Solver.py")],[],["Solver.solve"])

prop("C10","A predicate answers from all its sources and from nothing else",
 "When several modules define the same predicate, a goal has the answers of all of them, in module order, identical rows once; disjunctions take the answers of the first alternative that has any; a value a relation leaves open (None) matches any argument. "
 "A goal or stored fact whose predicate no module defines, and a relation that returns something malformed, is an error instead of a silent empty answer, and storing a fact reaches every module that can store that predicate.",
 ["configurations","inputs"],"all distributions of relations over modules and all goals, including disjunctions and storing",
 "Tests use one module per predicate nearly everywhere.",
 ["core/Solver.py","core/Model.py"],
 [("find_relation_values","core/Solver.py"),("find_relations","core/Model.py"),("solve_disjunction","core/Solver.py"),("write_atom","core/Solver.py")],[],["Solver.solve","Solver.write_atom"])

prop("C11","Inference rules derive exactly their logical consequences",
 "For every terminating rule base, a goal on a rule-defined predicate is answered by exactly the instances that unifying the goal with each rule head and solving its body yields, in the order the rules were added, whatever variable names the rules, the goal and the caller's binding happen to use. "
 "Facts are rules with an empty body, a rule learned at run time counts from the next goal on with the variables bound at that moment substituted, and solutions that leave an asked-for variable open are left out without affecting the other solutions.",
 ["programs","inputs","histories"],"all terminating rule bases (recursive, with constants, disjunctions, negation), all goals and sequences of learning",
 "The inference test asks a few family-tree questions.",
 ["module/InferenceModule.py","type/InferenceRule.py","core/atoms.py"],
 [("handle_rule / solve_rule","module/InferenceModule.py"),("learn_rule","module/InferenceModule.py")],
 [("rules","rules per predicate in order of insertion","module/InferenceModule.py")],["Solver.solve over InferenceModule"])

prop("C12","Built-in predicates compute what they say over every answer set",
 "For every body of goals, the built-in predicates give the value defined over the distinct answers of the body: negation and none succeed iff there is no answer, the counting determiners compare the number of answers, 'all' succeeds iff the range is non-empty and every entity of it has an answer in the body, count, sum, average, percentage, minimum and maximum are exact (ties go to the first answer, empty sets give no answer except count and sum), find-all and find-one collect distinct values in order, equals/let/comparisons/multiply/destructure follow their operands. "
 "Variables inside a body do not leak out, values such as 0 and the empty string count as values, and an unbound operand of a comparison or product, or two unbound operands of equals, is an error.",
 ["programs","inputs"],"all nestings of built-in predicates over all fact bases and bindings",
 "Each built-in occurs in at most a few fixed sentences; several never occur.",
 ["module/CoreModule.py"],
 [("one function per predicate","module/CoreModule.py")],[],["Solver.solve"])

prop("C13","What was stored is exactly what is answered later",
 "After any sequence of store, learn-rule, clear and query steps a query answers exactly the facts that were stored since the last clear and the rules learned so far: nothing is lost, nothing appears that was not stored, and variables bound at the time of storing are stored as their values. "
 "A query never changes what later queries answer.",
 ["histories"],"all interleavings of store, learn, clear and query steps through the solver over any memory module",
 "The dialogue tests run one fixed script each.",
 ["module/CoreModule.py","module/SimpleMemoryModule.py","module/InferenceModule.py","core/Solver.py","data_source/Sqlite3DataSource.py","data_source/SimpleDataSource.py"],
 [("store","module/CoreModule.py"),("write","module/SimpleMemoryModule.py"),("learn_rule","module/InferenceModule.py")],[("fact base","rows per table","data_source/Sqlite3DataSource.py")],["Solver.solve"])

prop("C14","All data sources answer selections alike",
 "For every table and every pattern of given and open values, each data source returns exactly the rows whose columns equal all given values, projected on the requested columns in the requested order; an open value (None) restricts nothing, and a given 0, empty string or False does restrict. "
 "Values are passed as data: quotes, percent signs and other special characters in a value neither break nor widen the selection.",
 ["inputs","configurations"],"all tables, column lists, value patterns and data sources (in-memory, Sqlite, MySQL, PostgreSQL drivers 2 and 3, SPARQL)",
 "Each driver test runs a couple of queries; the database tests are skipped or mocked without a server.",
 ["data_source/SimpleDataSource.py","data_source/Sqlite3DataSource.py","data_source/MySqlDataSource.py","data_source/PsycoPg2DataSource.py","data_source/PsycoPg3DataSource.py","data_source/SparqlDataSource.py","interface/SomeDataSource.py"],
 [("select/insert/delete","data_source/Sqlite3DataSource.py"),("create_query / prepare_results","data_source/SparqlDataSource.py")],[],["select, select_column, insert, delete"])

prop("C15","Dialogue contexts are active exactly while they should be",
 "A context is active from the moment it is started until it is ended, and during the body of a with-context goal, regardless of nesting, of other contexts, and of bodies that fail or raise an error; a with-context goal leaves the set of active contexts as its body left it, except that it ends the context if it was the one that started it. "
 "Querying for an active context succeeds iff it is active.",
 ["histories","fault_sequences"],"all sequences and nestings of start, end, with-context and query steps, including failing and raising bodies",
 "One dialogue uses one context, un-nested.",
 ["module/BasicDialogContext.py","data_source/Sqlite3DataSource.py"],
 [("with_context / start_context / end_context","module/BasicDialogContext.py")],[("context","active contexts","module/BasicDialogContext.py")],["Solver.solve"])

prop("C16","Query optimisation never changes the answers",
 "For every query whose goals may be evaluated in any order and whose name resolutions have one answer each, the optimised query has the same answers, for the variables that play a role in the answer, as the query as composed. "
 "This includes queries with nested goal lists (negation, quantifiers, counting) and queries that share variables between independent parts.",
 ["programs","configurations"],"all queries over finite relations with any declared sizes, any choice of answer variables, nested up to depth two",
 "The optimiser tests compare the text of two or three optimised queries and never run them against the unoptimised query.",
 ["processor/semantic_composer/optimizer/BasicQueryOptimizer.py","processor/semantic_composer/optimizer/FrontResolveName.py","processor/semantic_composer/optimizer/SortByCost.py","processor/semantic_composer/optimizer/IsolateIndependentParts.py"],
 [("optimize","processor/semantic_composer/optimizer/BasicQueryOptimizer.py"),("collect_batches","processor/semantic_composer/optimizer/IsolateIndependentParts.py")],[],["BasicQueryOptimizer.optimize + Solver.solve"])

prop("C17","The optimised plan is the promised plan",
 "The optimiser only rearranges: every goal of the query occurs in the plan exactly as often as in the query and unchanged except for the order of its nested goals and the lifting of name resolutions. Name resolutions are lifted to the front, in their original order; of the resulting list, and likewise of each nested list of goals (not of the alternatives of a disjunction), each next goal is the cheapest remaining one given the variables occurring in the goals placed before it (the size of the relation divided by the sizes of its bound arguments, the maximum over several relations of the same name, infinite when the size is not declared and for disjunctions); remaining goals of equal cost stay in the order in which they were last ranked, at first the original order. "
 "After the first goal, the goals that are connected through variables not bound by it (occurring as such or by name) form one group each, kept in order, and exactly the groups without answer variables are isolated, recursively.",
 ["programs","configurations"],"all queries and declared sizes",
 "The optimiser tests compare the text of two or three optimised queries.",
 ["processor/semantic_composer/optimizer/BasicQueryOptimizer.py","processor/semantic_composer/optimizer/FrontResolveName.py","processor/semantic_composer/optimizer/SortByCost.py","processor/semantic_composer/optimizer/IsolateIndependentParts.py"],
 [("sort","processor/semantic_composer/optimizer/SortByCost.py"),("isolate","processor/semantic_composer/optimizer/IsolateIndependentParts.py")],[],["BasicQueryOptimizer.optimize iterations"])

prop("C18","The generator says what the matching rules say",
 "The generated output is that of the first write rule for the category whose condition holds and that was not used before in this output (or, if all matching rules were used, the last matching one), with the first answer of its own condition filled in, constituents in order, texts joined, and its post-processing applied. "
 "Optional constituents without a matching rule contribute nothing, a required constituent without a matching rule is an error, and a single non-text value is passed through unchanged.",
 ["programs","inputs"],"all write grammars and all buffer contents and models",
 "The generator test produces three sentences.",
 ["core/BasicGenerator.py"],
 [("find_rule","core/BasicGenerator.py"),("generate_node","core/BasicGenerator.py")],[("used_rules","rules used in this output","core/BasicGenerator.py")],["System.read_output","BasicGenerator.generate_output"])

prop("C19","Each output reflects only what was stored since the last one",
 "Reading the output consumes it: whatever was put into the output buffer before a read never influences a later read, also when generating the output failed, and everything put there since the last read is available to the next one. "
 "Reading output never changes any other part of the model.",
 ["histories","fault_sequences"],"all sequences of enter, store and read steps, including failing reads",
 "The dialogue tests read once after each sentence and never fail in between.",
 ["core/BasicGenerator.py","module/BasicOutputBuffer.py","core/System.py"],
 [("generate_output","core/BasicGenerator.py"),("clear","module/BasicOutputBuffer.py")],[("buffer","pending output facts","module/BasicOutputBuffer.py")],["System.read_output"])

prop("C20","The query result cache is transparent, also across crashes",
 "With a result cache, a remote selection returns the same rows as without one, for every sequence of selections, across processes sharing the cache directory, and when a process stops at any point while writing or a cache file is unreadable; a cached selection is not sent again. "
 "Different selections never share a cached result.",
 ["histories","crash_points"],"all sequences of selections and restarts, and every crash point while a result is being written",
 "The Wikidata test only replays three committed cache files.",
 ["data_source/SparqlDataSource.py","data_source/WikidataDataSource.py"],
 [("select","data_source/SparqlDataSource.py")],[("cache directory","one file per selection","data_source/SparqlDataSource.py")],["SparqlDataSource.select"])

prop("C21","Rule text is read exactly as written, or rejected",
 "Every rule base written in the rule notation (facts, rules, variables, quoted strings with escapes, whole and decimal numbers including 0 and negative ones, nested atom lists, groups, disjunctions, comments anywhere, any white space) is read as exactly the rules, terms and values it denotes, in order. "
 "Text that is not in the notation is rejected; nothing is skipped silently.",
 ["inputs"],"all rule texts generated from rule bases, and all one-token corruptions of them",
 "The parser test reads one text.",
 ["module/helper/SimpleInferenceRuleParser.py","module/InferenceModule.py"],
 [("tokenizer and recursive descent","module/helper/SimpleInferenceRuleParser.py"),("import_rules","module/InferenceModule.py")],[],["SimpleInferenceRuleParser.parse","InferenceModule.import_rules"])

prop("C22","A CSV import stores every record and nothing else",
 "Importing a CSV file stores one row per record after the header, in file order, with each field under the column its header names, for every content of the fields (commas, quotes, line breaks, leading zeros, empty fields); empty lines store nothing. "
 "Tables other than the named one are unaffected and importing two files into one table keeps both.",
 ["inputs","histories"],"all CSV files (headers in any order, quoting, blank lines) and sequences of imports",
 "Tests import a few fixed files without quoting.",
 ["data_source/CsvImporter.py"],
 [("import_table_from_file","data_source/CsvImporter.py")],[],["CsvImporter + select"])

prop("C23","A multilingual system processes each language with its own processors",
 "In a multilingual pipeline the languages are tried in the order listed, each with exactly the processor registered for it, and the sentence is answered in the first language in which the pipeline accepts it, with every later stage working on that language's product. "
 "If no language accepts it the first language's failure is reported, and a language without a processor is an error.",
 ["configurations","inputs"],"all lists of languages and processors and all sentences",
 "One test with two languages and two sentences.",
 ["processor/language_selector/LanguageSelector.py","processor/language_selector/Multilingual.py"],
 [("process","processor/language_selector/Multilingual.py")],[],["System.enter"])

prop("C24","A dialogue behaves as its sentences in sequence",
 "For every dialogue, each sentence is parsed, composed, its inferences stored, its executable part run and its meaning solved, in that order and exactly once per interpretation tried, against the state all earlier sentences left, and the answer and output are those of the first interpretation that succeeds. "
 "A sentence that is not understood changes nothing but the pending output.",
 ["histories","programs"],"all dialogues of statements, questions and nonsense over grammars that store, learn and answer",
 "The dialogue tests run one fixed script each.",
 ["core/System.py","processor/semantic_executor/AtomExecutor.py","processor/semantic_composer/SemanticComposer.py","processor/parser/BasicParser.py","core/BasicGenerator.py"],
 [("enter / read_output","core/System.py"),("process","processor/semantic_executor/AtomExecutor.py")],[("model and output buffer","facts and pending output","core/System.py")],["System.enter","System.read_output"])

prop("C25","Logging only observes",
 "Turning on any combination of logging (all tests, last test, none; products of all or selected processors; statistics) changes no answer, output, error or stored fact of any dialogue. "
 "The log shows every alternative produced by each selected processor once, in the order of processing, and nothing when logging is off; statistics count every goal solved.",
 ["configurations","histories"],"all logger settings and dialogues",
 "Tests run with one logger setting and never look at the log.",
 ["core/Logger.py","core/DialogTester.py","entity/SentenceRequest.py","processor/semantic_executor/AtomExecutorProduct.py","processor/semantic_composer/SemanticComposerProduct.py"],
 [("add_process_result","core/Logger.py"),("log of each product","processor/semantic_composer/SemanticComposerProduct.py")],[],["Logger entries","System.enter"])

prop("C26","Grammar rules are read as they are written, or rejected",
 "For every grammar, read or write, each rule denotes exactly what its text says: category, arguments, and constituents in order (categories with their arguments, words and regular expressions character for character with their escaped quotes, optional marks, and a space, nothing or either between them), whatever the white space; and it carries what stands under its other keys for its kind of grammar and nothing else. "
 "A grammar with a rule that is not in the notation is rejected, and a rule learned later is added to the grammar if it is in the notation and otherwise leaves the grammar as it was.",
 ["inputs","histories"],"all texts of rules (made of the tokens of the notation) and all sequences of learned rules",
 "The test grammars use a handful of forms, and never a wrong one.",
 ["processor/parser/helper/SimpleGrammarRulesParser.py","entity/GrammarRules.py","entity/RuleConstituent.py","module/GrammarModule.py"],
 [("parse_syntax","processor/parser/helper/SimpleGrammarRulesParser.py"),("create_rule_variants","entity/GrammarRules.py"),("learn_grammar_rule","module/GrammarModule.py")],
 [("grammar","forms of the rules by category and number of arguments","entity/GrammarRules.py")],
 ["SimpleGrammarRulesParser.parse_read_grammar","SimpleGrammarRulesParser.parse_write_grammar","GrammarModule.learn_grammar_rule"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
