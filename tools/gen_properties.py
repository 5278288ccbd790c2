#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A workload evaluates to exactly the terms its operators denote",
 "However a workload is composed from literal term sets, plugging, appending and filtering (through the builder methods or by assembling the operators directly, in any nesting), evaluating it yields exactly the terms of the textbook meaning: plugging replaces every occurrence of the named atom independently by every peg, appending is union with repetition, filtering keeps exactly the terms that satisfy the filter. The builders' rewrites (pushing filters into pegs, merging filters, turning an empty plug into a filter, flattening appends) never add, drop, change or repeat a term, whatever the plugged name or the filter.",
 ["inputs", "programs"], "all workload expressions over all term sets, plugged names, pegs and filters",
 "The unit tests evaluate about a dozen fixed workloads; the builder rewrites depend on the combination of filter kinds, nesting and names, which is an unbounded space.",
 ["src/enumo/workload.rs", "src/enumo/sexp.rs", "src/enumo/filter.rs"],
 [("operator evaluation", "Workload::force"), ("filter pushdown through plugs and filter merging", "Workload::filter, Filter::and, Filter::is_monotonic"), ("empty plug becomes a filter", "Workload::plug"), ("append flattening", "Workload::append"), ("cross-product substitution", "Sexp::plug")],
 ["Workload::force output as a multiset of terms"])
prop("C02", "A filter keeps exactly the terms that satisfy its definition",
 "For every filter and every term, the term is kept if and only if it satisfies the filter's definition: the size metrics count atoms, lists or depth and compare with the bound; Contains holds when some subterm matches the pattern, with wildcards matching anything and a repeated pattern variable matching only equal terms; Excludes is its negation; Canon holds when the listed symbols first appear in the listed order; And, Or and Invert are the boolean connectives (also when empty or nested).",
 ["inputs"], "all filters (any nesting), all patterns and all terms",
 "The tests check a handful of filters on a handful of terms; non-linear patterns, nesting of connectives, boundary metric values and symbol orders are not explored.",
 ["src/enumo/filter.rs", "src/enumo/pattern.rs", "src/enumo/sexp.rs", "src/enumo/metric.rs"],
 [("filter test", "Filter::test"), ("pattern matching with consistent variables", "Pattern::matches_with"), ("metrics", "Sexp::measure"), ("canonical renaming", "Sexp::canon")],
 ["Workload::Filter(..).force() on single-term workloads"])
prop("C03", "Grammar iteration enumerates every term up to the bound exactly once",
 "Iterating a grammar to a bound n >= 1 under any size metric yields exactly the terms derivable from the grammar whose metric is at most n: all of them, none beyond the bound, no unexpanded nonterminal and no repetition. The base grammar with operators of up to k arguments has exactly one production for variables, for constants and for each arity 1..k, and substituting a workload for an atom yields, for each substitute, the workload with every occurrence of the atom replaced by that one term.",
 ["inputs", "configurations"], "all grammars whose recursive productions carry an operator, all nonterminal names, metrics and bounds",
 "The tests compare counts for one grammar and a few bounds; they neither compare the terms themselves nor try other grammars.",
 ["src/recipe_utils.rs", "src/enumo/workload.rs", "src/enumo/filter.rs"],
 [("bounded iteration with filters", "recipe_utils::iter_metric"), ("base grammar", "recipe_utils::base_lang"), ("uniform substitution", "recipe_utils::substitute"), ("filter pushdown", "Workload::filter")],
 ["iter_metric(..).force(), base_lang(..).force(), substitute(..).force()"])
prop("C04", "Every workload term is in the e-graph with its true value vector",
 "Turning a workload into an e-graph represents every term of the workload, and the value vector of each term's class is the term evaluated at every assignment of the sample values to the workload's variables: every combination occurs exactly once, all terms use the same assignment at the same position, and undefined results stay undefined. Terms that are different expressions stay in different classes unless constant folding justifies merging them, and no class exists that is not a subterm of the workload or one of its variables.",
 ["inputs"], "all workloads and all interpretations of the operators, with any number of variables",
 "Tests only observe the final rules of fixed recipes; a wrong row order or a missing combination shows only for particular numbers of variables, sample sizes or operators.",
 ["src/enumo/workload.rs", "src/util.rs", "src/language.rs", "src/bv.rs"],
 [("variable collection and initialisation", "Workload::to_egraph"), ("cross product of samples", "util::self_product"), ("pointwise evaluation macro", "map! in src/util.rs"), ("analysis construction", "SynthAnalysis::make")],
 ["EGraph::lookup_expr and class data cvec after Workload::to_egraph"])
prop("C05", "Terms, patterns, workloads and rulesets survive printing and parsing",
 "Printing a term and parsing it again gives the same term, and writing a workload or a ruleset to a file and reading it back gives the same terms or the same rules in the same order. The printed form of a rule parses back to a rule with the same sides and the same direction, and a two-way rule in the source text becomes exactly the two one-way rules.",
 ["inputs"], "all terms over printable atoms, all workloads (including composed ones) and all rulesets",
 "Only three fixed parse examples are tested; files are written and read by no test that compares contents.",
 ["src/enumo/sexp.rs", "src/enumo/workload.rs", "src/enumo/ruleset.rs", "src/enumo/rule.rs"],
 [("term printing and parsing", "Sexp Display / FromStr"), ("workload files", "Workload::to_file / from_file"), ("ruleset files", "Ruleset::to_file / from_file"), ("rule parsing", "Rule::from_string")],
 ["values after a print/parse or write/read round trip"])
prop("C06", "Rulesets behave as ordered sets of rules keyed by their text",
 "Under any sequence of operations a ruleset behaves as a set of rules identified by their text: construction, union, extension, adding, removing, membership, length, emptiness and iteration agree with a mathematical set, never duplicate or lose a rule, and never change their operands unless documented to. Partition splits the set exactly according to the predicate and keeps the relative order; the two-way count counts each rule together with its reverse once and every other rule once, and the printed listing shows each rule exactly once in that form.",
 ["histories", "inputs"], "all sequences of ruleset operations over all rules",
 "Tests use single operations on fixed rulesets; combinations (e.g. removing rules that are absent, self-inverse rules, re-adding) are untested.",
 ["src/enumo/ruleset.rs", "src/enumo/rule.rs"],
 [("keyed storage", "Ruleset(IndexMap)"), ("set operations", "Ruleset::union/extend/add/add_all/remove_all/contains/partition"), ("two-way counting", "Ruleset::bidir_len, Ruleset::pretty_print")],
 ["return values, iteration order and printed listing"])
prop("C07", "A rule rewrites exactly the matches of its left side to its right side",
 "A rule read from text rewrites only in the direction its arrow says: applying it merges the class of every match of the left pattern with the corresponding instance of the right pattern, and merges nothing else. A class whose value vector is entirely undefined is never merged by a rule, nor is a match merged with a right-hand instance that is entirely undefined, and a rule whose right side has variables that do not occur on the left cannot be constructed as a rewrite.",
 ["inputs", "programs"], "all rules and all e-graphs they are applied to",
 "Tests check the parsed names of three rules; whether the stored rewrite does what the name says, for arbitrary patterns and partially undefined values, is never examined.",
 ["src/enumo/rule.rs", "src/language.rs"],
 [("rule construction", "Rule::from_string, Rule::new"), ("application guard and union", "Rhs::apply_one"), ("instantiation of the right side", "apply_pat"), ("definedness", "Signature::is_defined")],
 ["equivalences of the resulting e-graph"])
prop("C08", "Equality saturation never equates terms the rules do not imply",
 "Whatever the scheduling strategy, limits and order of the rules, two terms end up in the same class only if their equality follows from the given rules (applied left to right) by congruence; in particular, with rules that are true in the domain, no two terms with different values are ever merged, and no term present before is lost. The given e-graph and ruleset are left as they were.",
 ["programs", "inputs", "schedules"], "all e-graphs, rulesets, scheduling strategies and limits",
 "Tests run a few recipes whose unsound merges would only be noticed if they changed a rule count.",
 ["src/enumo/scheduler.rs", "src/enumo/rule.rs", "src/language.rs"],
 [("three strategies", "Scheduler::run_internal"), ("rule application", "Rhs::apply_one")],
 ["partition of the terms into classes after Scheduler::run / run_derive"])
prop("C09", "Compressing merges what saturation would, and never grows the e-graph",
 "Compressing an e-graph with a ruleset merges two of its original classes exactly when running the rules on a copy under the same limits equates them. It never adds a class or a new expression (constant folding of what it merged aside), and every term that was represented still is.",
 ["programs", "inputs"], "all e-graphs, rulesets and limits",
 "Tests compress fixed workloads and look only at the rules that come out.",
 ["src/enumo/scheduler.rs"],
 [("map merges back to a clone", "Scheduler::run_internal, Compress branch")],
 ["classes and e-nodes of the returned e-graph, compared with the Simple strategy"])
prop("C10", "Schedulers run exactly the configured schedule and respect its limits",
 "The simple strategy performs exactly the configured number of iterations unless it saturates or hits the node limit, and considers at most the configured number of matches per rule and iteration. The saturating strategy runs the rules that can add no class to saturation before, between and after the configured number of single rounds of the others; a rule counts as such exactly when every proper subterm of its right side already occurs in its left side.",
 ["programs", "configurations"], "all rulesets, e-graphs and limits",
 "No test observes how many iterations ran or which rules were considered saturating beyond the effect on recipe results.",
 ["src/enumo/scheduler.rs", "src/enumo/rule.rs", "src/lib.rs"],
 [("limits", "Scheduler::run_internal, MatchScheduler"), ("saturating test", "Rule::is_saturating")],
 ["equivalences after exactly n iterations, compared with a reference runner; Rule::is_saturating"])
prop("C11", "Value matching proposes exactly the pairs of classes whose values agree",
 "Value matching proposes the two directions of a pair of classes, as general rules over their smallest terms, exactly when the two value vectors never differ at a position where both are defined and agree at some position where both are defined; a direction is left out only when its right side has variables its left side lacks. The fast variant proposes exactly the pairs of classes with identical value vectors that are defined somewhere.",
 ["inputs"], "all e-graphs and value vectors, with undefined entries anywhere",
 "Tests see only the candidate sets of fixed recipes on mostly total domains; partially undefined vectors, in particular an undefined first entry, are barely exercised.",
 ["src/enumo/ruleset.rs"],
 [("pairwise comparison with first-value buckets", "Ruleset::cvec_match"), ("grouping by identical vectors", "Ruleset::fast_cvec_match"), ("two directions from one generalisation", "Ruleset::add_from_recexprs")],
 ["the returned candidate ruleset"])
prop("C12", "Merge-based candidates are exactly the newly equated extractable pairs",
 "Comparing an e-graph with the result of saturating it proposes a rule for two terms exactly when they are best extractions of classes that were different before and are equal after; both directions are proposed where the variables allow it. No proposed rule mentions an operator that the domain disallows, and classes that can only be written with disallowed operators yield no candidate.",
 ["inputs", "programs"], "all pairs of an e-graph and its saturation, and all choices of allowed operators",
 "Only the outcome of fixed fast-forwarding recipes is tested.",
 ["src/enumo/ruleset.rs", "src/lib.rs"],
 [("pairing of classes by merged id", "Ruleset::extract_candidates"), ("extraction cost that forbids operators", "ExtractableAstSize")],
 ["the returned candidate ruleset"])
prop("C13", "Minimization returns only validated candidates",
 "For any candidates, prior rules and limits, minimization terminates having consumed every candidate, and every rule it returns is one of the candidates, is accepted by the domain's validator and is not a prior rule. The rules it reports as rejected are exactly candidates that the validator does not accept; a candidate that is accepted or merely redundant is never reported as rejected, and the prior rules and nothing else take part besides the candidates.",
 ["inputs", "programs"], "all candidate sets (with valid, invalid and undecided rules, with and without their reverses), prior rules and limits",
 "Recipes run minimization on fixed candidates and check only counts or derivability of the result.",
 ["src/enumo/ruleset.rs", "src/enumo/rule.rs"],
 [("selection and validation", "Ruleset::select, Rule::is_valid"), ("loop and prior removal", "Ruleset::minimize")],
 ["the two returned rulesets and the emptied candidate set"])
prop("C14", "Minimization loses no proving power and picks best-scored rules first",
 "Every valid candidate that minimization does not return can be derived from the prior rules and the returned rules within the limits given to it. Apart from reverses, which are taken together with the rule they reverse, rules are taken in order of score: the first is a best one among the valid candidates, and each later one is a best one among the valid candidates that the prior rules and the rules taken before it do not make redundant.",
 ["inputs", "programs"], "all candidate sets, prior rules and limits",
 "Tests compare rule counts of recipes, which do not reveal a candidate that was dropped without being derivable.",
 ["src/enumo/ruleset.rs", "src/language.rs"],
 [("score order", "Ruleset::select, SynthLanguage::score"), ("removal of derivable candidates", "Ruleset::shrink")],
 ["the returned ruleset, checked with an independent derivation engine"])
prop("C15", "Derivability answers follow from the rules and split rulesets exactly",
 "A rule is reported derivable only if its two sides really become equal by applying the ruleset, starting from the left side only or from both sides as requested, within the limits; whenever the limits are not exhausted and the equality is reached, it is reported. A ruleset derives each of its own rules, starting from both sides derives whatever starting from the left alone does, and splitting a ruleset by derivability puts every rule in exactly one part, according to the single-rule answer.",
 ["inputs", "programs", "configurations"], "all rulesets, rules, limits and both starting modes",
 "Tests check a few fixed derivations; a false derivable or not-derivable answer elsewhere silently corrupts the reported comparison.",
 ["src/enumo/ruleset.rs", "src/enumo/scheduler.rs"],
 [("start e-graph and verdict", "Ruleset::can_derive"), ("early stop hook", "Scheduler::run_derive"), ("partition", "Ruleset::derive")],
 ["Ruleset::can_derive and Ruleset::derive results"])
prop("C16", "Rule inference finds sound rules that explain every equality of the workload",
 "Inferring rules from a workload, with any prior rules that are true in the domain, returns only rules that are true in the domain, and when the value vectors cover all inputs and limits are not exhausted, any two workload terms equal in the domain become provably equal from the prior and the inferred rules (as far as a rule between them can be written at all). Recursive inference up to a size bound returns the prior rules together with rules that explain every equality among terms up to that size in the same sense.",
 ["inputs", "programs", "configurations"], "all domains, workloads, prior rulesets and both matching modes",
 "Recipes are tested for seven fixed domains by comparing with recorded rulesets or counts under limits.",
 ["src/recipe_utils.rs", "src/enumo/ruleset.rs", "src/enumo/scheduler.rs", "src/enumo/workload.rs"],
 [("pipeline", "recipe_utils::run_workload, run_workload_internal"), ("recursive pipeline", "recipe_utils::recursive_rules")],
 ["the returned ruleset, against the domain's semantics"])
prop("C17", "Fast-forwarding yields allowed rules implied by prior and exploratory rules",
 "Fast-forwarding returns only rules built from allowed operators on both sides that follow from the prior and the exploratory rules, and neither a prior rule nor one between terms that the allowed prior rules already equate. It drops a pair of allowed workload terms that all the rules equate within the limits only if the pair is derivable from the prior and the returned rules within the limits of minimization (when those allow no rounds: from the allowed prior rules and the returned ones).",
 ["inputs", "programs", "configurations"], "all workloads, prior and exploratory rulesets and choices of allowed operators",
 "Two fixed domains (exponential, trigonometric) are tested by rule counts and a fixed list.",
 ["src/recipe_utils.rs", "src/enumo/ruleset.rs", "src/language.rs"],
 [("phases", "recipe_utils::run_fast_forwarding"), ("allowed rewrites", "SynthLanguage::is_allowed_rewrite"), ("candidates by merging", "Ruleset::extract_candidates")],
 ["the returned ruleset"])
prop("C18", "Bitvector values compute modulo two to the width for every width",
 "For every width from 1 to 128 and all operands, the bitvector operations (add, subtract, multiply, negate, complement, and, or, xor, logical shifts with any shift amount) give the two's-complement result modulo 2^width, every produced value lies within the width, and the named constants are the values their names say. Reading accepts decimal and #b binary text, reduces modulo 2^width and rejects malformed text with an error; printing, serialising and reading back give the same value.",
 ["inputs", "configurations"], "all widths 1..128, all operand values and all texts",
 "One unit test checks five facts at width 4.",
 ["src/bv.rs"],
 [("masked arithmetic", "BV::new, wrapping_*, my_shl, my_shr"), ("constants", "BV::ALL_ONES, MIN, MAX"), ("text", "FromStr, Display, serde")],
 ["operation results against a bit-by-bit reference"])
prop("C19", "For bitvector domains, evaluation and validation agree with the semantics",
 "In the bitvector domain generated for any width, evaluating a term on sample inputs gives the two's-complement value, and the validator accepts a rule only if both sides have equal values on every input and rejects it only if some input separates them (it may answer unknown). Initialising variables samples every combination of the domain's sample values, for any number of variables including none.",
 ["inputs", "configurations"], "all widths, terms, rules and inputs",
 "Recipes at four widths compare rule counts; wide literals and unusual widths never occur in them.",
 ["src/bv.rs", "src/util.rs"],
 [("interpreter", "impl_bv! eval"), ("SMT encoding", "impl_bv! validate"), ("sampling", "impl_bv! initialize_vars, util::self_product")],
 ["eval results, ValidationResult, cvecs"])
prop("C20", "Class analysis data stay consistent under any rewriting",
 "After any sequence of insertions and sound merges, each class's value vector agrees with the value of every expression in the class wherever that is defined, its recorded simplest term is a member of the class and no member is smaller, and its interval is contained in the interval of each of its expressions. A class whose interval is a single value contains that constant.",
 ["histories", "programs"], "all sequences of insertions and merges over all interpretations",
 "The analysis is exercised only indirectly; its invariants are never asserted.",
 ["src/language.rs", "src/lib.rs"],
 [("construction", "SynthAnalysis::make"), ("merge", "SynthAnalysis::merge, Interval::new"), ("constant folding", "SynthAnalysis::modify")],
 ["class data of the e-graph after each history"])
prop("C21", "Generalizing terms to rules renames variables consistently",
 "Turning a pair of terms into a rule replaces variables consistently across both sides by distinct pattern variables and changes nothing else, so that the original pair is an instance of the rule and the rule is independent of the original names; instantiating a pattern and generalizing again gives the same rule up to renaming. Scores order rules by more variables, then fewer different constants on the sides, then smaller larger side, then smaller total size, then fewer distinct operators.",
 ["inputs"], "all pairs of terms with up to 26 variables",
 "Only observed through recipe outputs, which mostly use up to three variables in order.",
 ["src/language.rs", "src/enumo/ruleset.rs", "src/util.rs"],
 [("generalization", "SynthLanguage::generalize"), ("instantiation", "SynthLanguage::instantiate"), ("score", "SynthLanguage::score, Rule::score")],
 ["patterns, instantiated terms and score ordering"])
prop("C22", "The result log only grows, by one correct record per report",
 "Each report appends exactly one record to the results file, which stays a well-formed list with all earlier records unchanged and in order, whatever it contained before. The record names what was reported, lists the given rules in order, and its derivability entries split exactly the rules of the target ruleset according to what the other ruleset derives in each mode; skipped comparisons are left empty and nothing else is.",
 ["histories", "inputs"], "all sequences of reports over all rulesets and names, starting from no file, an empty file or earlier results",
 "No test reads the results file.",
 ["src/logger.rs", "src/util.rs"],
 [("append", "add_json_to_file"), ("records", "write_baseline, write_bv_derivability, write_ff_phase, get_derivability"), ("recipe line count", "util::count_lines")],
 ["nightly/data/output.json after each report"])
prop("C23", "Rule inference is deterministic",
 "Running the same inference (matching, minimization, whole pipelines, partition and derivability) on the same inputs yields the same rules in the same order, in the same process or another one, whatever ran before and however many threads the parallel parts use.",
 ["schedules", "configurations", "inputs"], "all inputs, thread counts, earlier activity and process restarts",
 "Tests run each recipe once, with one thread count, and usually compare sets or counts.",
 ["src/enumo/ruleset.rs", "src/recipe_utils.rs", "src/enumo/scheduler.rs"],
 [("order-preserving parallel partition", "Ruleset::partition"), ("deterministic hashing", "HashMap/IndexMap aliases in src/lib.rs"), ("score sort", "Ruleset::select")],
 ["ordered rule lists of repeated runs"])
prop("C24", "The nightly report shows every rule and the right derivability figures",
 "Formatting a list of rules for the report shows every rule exactly once: a rule and its reverse as one two-way line, every other rule as a one-way line, and leaves the underlying data unchanged. Derivability is shown as the percentage of rules in the derivable part, missing results as a dash, and each table row shows the figures of its own record.",
 ["inputs"], "all rule lists and result records",
 "The report scripts have no tests.",
 ["infra/nightly-resources/utils.js", "infra/nightly-resources/data.js", "infra/nightly-resources/table.js"],
 [("rule formatting", "formatRules in utils.js"), ("percentages", "getDerivability, toPercentage, tryRound in utils.js"), ("rows", "getBaseline, getBvData, getFFData in data.js")],
 ["return values of the report functions"])
prop("C25", "Scraping Halide's sources yields every rewrite exactly once",
 "Run in a checkout of Halide, the scraper writes every call rewrite(lhs, rhs) or rewrite(lhs, rhs, condition) of the source files, however its arguments nest brackets and commas or are spread over lines and line comments, exactly once and (up to blanks) verbatim: without condition as 'lhs ==> rhs' to out-nc.txt, with one as 'lhs ==> rhs if condition' to out-c.txt, those of one source file in its order. Calls in line comments and rules whose text mentions an unsupported name are left out, and the number of calls of each file that has any is printed.",
 ["inputs"], "all source files whose rewrite calls are complete and not nested",
 "The script has no tests; its output was taken over as a baseline once.",
 ["scripts/scrape_halide_rules.py"],
 [("argument splitting by bracket level", "parse_rewrite"), ("comments and line joins", "strip_comments"), ("search, counts and filters", "parse_file and the script's body")],
 ["out-c.txt, out-nc.txt and the standard output of the script"])
prop("C26", "A nightly run publishes exactly what that run produced, or nothing",
 "The nightly script runs the tests once, from the top of the checkout it belongs to and on one test thread (the reports append to one file), however the script is called (by any path or link, from any directory); when the tests fail or leave no results, it fails and publishes nothing. Otherwise it publishes once, under the time, machine, branch and abbreviated commit, exactly the report pages, this run's log, this run's results unchanged, and the same results as the script that defines data; nothing left by earlier runs is published, and no file outside the nightly directory but the log is changed.",
 ["histories", "fault_sequences", "inputs"], "all leftovers of earlier runs, test outcomes, results and ways of calling the script",
 "The script is only ever run by the nightly machine.",
 ["infra/nightly.sh"],
 [("locating the checkout", "the loop over links"), ("cleaning and preparing", "rm, mkdir"), ("stopping at the first failure", "set -e"), ("collecting", "cp and the data script"), ("publishing", "nightly-results")],
 ["commands run, the published directory, files changed, exit status"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
