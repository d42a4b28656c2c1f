#!/usr/bin/env python3
"""Writes properties.jsonl (one line per property) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Agendas hold the right items and deliver them in their documented order",
  "A Vec agenda is last-in-first-out, a VecDeque agenda first-in-first-out, and every weighted agenda pops and peeks an item of greatest priority; len, is_empty, peek, clear, clone and iteration always agree with the contents. A limited heap of capacity k never holds more than k items and, when full, a push evicts and returns an item of least priority (possibly the new one), so that it keeps the k best. A beam heap refuses a push exactly when it is non-empty and the new priority is less than the greatest held priority times the beam factor.",
  ["histories", "inputs"], "every sequence of push/pop/extend/clear/clone on every agenda, every priority (ties included), every capacity and beam factor",
  "The crate search has only doc examples with fixed priorities and benchmarks; no test pops under ties, capacity 0, or after evictions.",
  ["search/src/agenda/mod.rs", "search/src/agenda/limited_heap.rs", "search/src/agenda/beam_heap.rs", "search/src/agenda/binary_heap.rs", "search/src/agenda/weighted.rs"],
  [("min-max heap with capacity check before push", "LimitedHeap::push"), ("comparison with peek * beta", "BeamHeap::push"), ("order by weight only", "WeightedItem")],
  ["return values of push/pop/peek/len/is_empty/into_iter"])
p("C02", "Searches visit exactly the reachable nodes, in agenda order; unique ones once",
  "A search started from some nodes yields every node reachable through the successor function: depth-first yields the most recently discovered pending node next, breadth-first the earliest discovered, weighted the pending node of greatest weight. Turning it into a unique search yields every reachable node exactly once (also on graphs with cycles and repeated edges), never stops while an unvisited reachable node is pending, and then ends.",
  ["inputs", "histories"], "every finite successor relation, every list of initial nodes (duplicates included), every agenda",
  "The only tests are doc examples on small fixed graphs; no test meets a node that is pending twice.",
  ["search/src/search.rs"], [("agenda pop + extend by successors", "Search::next"), ("set of visited nodes", "unique::Search::next")],
  ["items of the iterators Search and unique::Search"])
p("C03", "A unique heap is a max-queue that holds every element at most once",
  "A unique heap (built by default, from a list of pairs, or from a vector) holds each element at most once and pops and peeks the pair that is greatest by weight and then by element; a push of an element that is present is refused and changes nothing, and after the element was popped it can be pushed again. len, is_empty, iteration and into_sorted_vec show exactly the held pairs.",
  ["histories", "inputs"], "every sequence of constructions, pushes and pops with any elements and weights, duplicates included",
  "Tests use one fixed sequence of pushes and pops; re-insertion after pop, ties and duplicate constructors are not sampled.",
  ["unique-heap/src/lib.rs"], [("heap plus set of current items", "UniqueHeap::push/pop/from_iter/from")],
  ["return values of push/pop/peek/len/into_sorted_vec/into_iter"])
p("C04", "A vector multimap maps each index to the values pushed there, in order",
  "A vector multimap (and the adapter over an existing vector of vectors) behaves as a total map from indices to lists: a push appends to the list at its index and changes no other list, reading an untouched index gives the empty list, and a fallible read succeeds exactly within the current size. Conversion into a vector drops nothing but trailing empty lists, and conversion with a given size yields exactly that many lists.",
  ["histories", "inputs"], "every sequence of push_to/get/get_mut/get_or_fail/indexing and the final conversions, any indices",
  "The crate has a handful of example tests; padding, sparse indices and shrinking are not covered in combination.",
  ["vecmultimap/src/lib.rs"], [("padding to index", "pad_to"), ("trailing trim", "Into<Vec<Vec<T>>>")], ["return values of all public methods"])
p("C05", "A partition exists exactly for disjoint cells and finds each symbol's cell",
  "Building a partition from a list of cells succeeds exactly if no symbol occurs in two of them. Then each symbol's cell is the listed cell that contains it, symbols outside have none, the alphabet is the ordered union, and collapsing lists each non-empty cell exactly once, so that rebuilding from it (and a serialization round trip) gives an equal partition; deserializing overlapping cells is an error, not a crash.",
  ["inputs"], "every list of finite cells over any ordered alphabet, empty cells and repeated cells included",
  "One test with two disjoint and one overlapping list of cells.",
  ["src/util/partition.rs"], [("map from symbol to shared cell", "Partition::new"), ("first-seen sweep", "Partition::collapse")], ["new, get_cell, collapse, alphabet, ==, serde"])
p("C06", "A Gorn tree is a finite map from addresses to values in lexicographic order",
  "Under every sequence of operations a Gorn tree behaves as a finite map from addresses (sequences of numbers) to values: insert and remove return the previous value, append moves everything over and lets the appended tree win, split_off moves exactly the addresses from the given one on, and iteration, keys and values enumerate in lexicographic order of addresses. Two trees are equal exactly if they have the same entries.",
  ["histories", "inputs"], "every sequence of insert/remove/append/split_off/entry/clear/collect operations over any addresses",
  "No test addresses the container itself; it is only used as scaffolding.",
  ["src/util/tree.rs"], [("BTreeMap keyed by address", "GornTree")], ["return values, iteration order, equality"])
p("C07", "Dyck recognition accepts exactly the balanced bracket words",
  "A word of opening and closing brackets is accepted exactly if it can be reduced to the empty word by deleting adjacent matching pairs, i.e. every closing bracket matches the most recent open one and none stays open; the empty word is accepted.",
  ["inputs"], "every finite bracket word over every symbol type", "Two accepted words are tested, no rejected one.",
  ["src/dyck/mod.rs"], [("stack of open symbols", "dyck::recognize")], ["boolean result"])
p("C08", "Grammar files are read as the README describes",
  "A CFG or PMCFG text yields exactly the declared initial nonterminals (all `initial:` lines together) and one rule per rule line, in order, with the written head, successors, composition and weight: lines with only whitespace and lines whose first non-blank character is % are ignored, a trailing % comment is ignored, a missing weight is one, any of →, -> and => may be the arrow, blanks around symbols are insignificant, and a symbol may be written bare or in double quotes.",
  ["inputs"], "every well-formed grammar text in the documented format, any layout, comments, quoting and weights",
  "Tests parse a dozen fixed strings and compare rules with an equality that ignores weights.",
  ["src/util/parsing.rs", "src/grammars/cfg/from_str.rs", "src/grammars/pmcfg/from_str.rs", "src/grammars/lcfrs/from_str.rs"],
  [("line dispatch", "initial_rule_grammar_from_str"), ("token and vector parsers", "parse_token, parse_vec")], ["FromStr of CFG, PMCFG, Lcfrs and their rules"])
p("C09", "Printed grammars read back as the same grammar",
  "Printing a PMCFG or LCFRS, or any CFG or PMCFG rule, that was read from a text and reading the printed text gives the same initial nonterminals, rules, order and weights (with weights of type f64 exactly, with log-domain weights up to rounding).",
  ["inputs"], "every grammar the parser can produce, including symbols that need quotes",
  "Display is compared with two fixed strings; nothing is printed and re-read, and weights never enter a comparison.",
  ["src/grammars/pmcfg/mod.rs", "src/grammars/cfg/mod.rs", "src/grammars/lcfrs/mod.rs", "src/util/parsing.rs"],
  [("Display impls", "pmcfg/mod.rs, cfg/mod.rs, lcfrs/mod.rs"), ("parsers", "from_str.rs")], ["to_string then parse"])
p("C10", "Malformed grammar texts are refused with an error, never with a crash",
  "Reading any text as a CFG, PMCFG, LCFRS, one of their rules, or an equivalence relation terminates with a result or an error value and never panics; a text in which some rule or declaration line lacks a required part (arrow, composition, successor list, closing delimiter) or carries an unreadable weight is an error as a whole.",
  ["inputs"], "every text: truncated, mutated, non-ASCII, with unreadable weights or indices, with CRLF or odd whitespace",
  "Illegal inputs are tested for a few helper parsers only.",
  ["src/util/parsing.rs", "src/grammars/cfg/from_str.rs", "src/grammars/pmcfg/from_str.rs", "src/approximation/equivalence_classes.rs"],
  [("nom error propagation", "FromStr impls")], ["Ok/Err of parse"])
p("C11", "Evaluating a derivation tree composes the yields of its rules",
  "Reading the compositions off a tree of PMCFG rules keeps every address with its composition and head, and evaluating it yields one string per component of the root in which each variable (i, j) stands for component j of the i-th child's value, in order and with repetitions, and each terminal for itself; a use of a component that the child does not have is refused.",
  ["inputs"], "every finite derivation tree: copying, deleting, permuting, empty components, any depth", "A handful of fixed trees.",
  ["src/grammars/pmcfg/mod.rs"], [("recursive evaluation with memo per child", "evaluate_pos"), ("split into maps", "to_term")], ["evaluate, to_term"])
p("C12", "Separating terminal rules gives NEGRA normal form and keeps the yield",
  "Separating the terminals of a derivation tree yields a tree in which every rule has either only variables or exactly one terminal and nothing else, which evaluates to the same value, keeps every old address, head and weight, and whose new nodes are childless terminal rules hanging below the rule whose terminal they carry, with heads that do not clash with existing heads.",
  ["inputs"], "every derivation tree: terminals before, between and after variables, repeated terminals, several components",
  "Four fixed trees; rules that start with a terminal followed by variables are not among them.",
  ["src/grammars/pmcfg/mod.rs", "src/grammars/pmcfg/negra.rs"], [("replacement by fresh children", "separate_terminal_rules"), ("criterion", "meets_negra_criteria")], ["separate_terminal_rules, evaluate, meets_negra_criteria"])
p("C13", "NEGRA export encodes exactly the derivation tree and its sentence",
  "For a derivation tree in normal form the exported block lists, between its #BOS and #EOS lines, one line per word in sentence order (word or supplied token, its preterminal label, parent number) and then one line per inner constituent below the root that dominates a word, numbered uniquely from 500 on, with its label and parent number, 0 standing for the root; following parent numbers rebuilds the tree. The no-parse export lists every word with its tag below the single constituent 500.",
  ["inputs"], "every normal-form derivation tree (discontinuous ones included), both dump modes, any sentence id",
  "Fixed expected strings for three trees.",
  ["src/grammars/pmcfg/negra.rs"], [("numbering by breadth-first queue", "to_negra_vector, get_rule_number"), ("terminal ids", "identify_terminals")], ["to_negra, noparse"])
p("C14", "Grammar classes are recognised exactly",
  "Constructing an LCFRS from rules and an initial nonterminal succeeds exactly if all rules of a nonterminal have the same number of components, every nonterminal used has a rule, each composition uses every component of every successor exactly once and nothing else, and the initial nonterminal has exactly one component; a PMCFG is an MCFG exactly if it has one initial nonterminal and no rule uses a variable twice. The checks never crash, the accepted grammar has exactly the given rules, and the normal-form test holds exactly if no component is empty and terminals occur only alone in rules of their own.",
  ["inputs"], "every finite list of rules with any compositions and successor lists", "Three fixed rule lists.",
  ["src/grammars/lcfrs/mod.rs", "src/grammars/mcfg/mod.rs"], [("fanout map", "read_fanouts"), ("variable occurrences", "check_composition"), ("linearity", "Mcfg::from_pmcfg")], ["Lcfrs::new, in_normal_form, Mcfg::from_pmcfg, destruct"])
p("C15", "Converting an MCFG into an LCFRS keeps its weighted language and deletes nothing",
  "For every MCFG with consistent fanouts the conversion yields an LCFRS whose rules use every successor component exactly once, and for every string the derivations of the MCFG and of the LCFRS are in one-to-one correspondence with equal multisets of weights; no rule reachable from the initial nonterminal is lost or duplicated.",
  ["inputs"], "every MCFG: deletion of any components of any successor, recursion, several deletion patterns per nonterminal",
  "One example grammar whose search never meets a pending duplicate.",
  ["src/grammars/lcfrs/conversion.rs", "search/src/search.rs"], [("search over (nonterminal, deleted components)", "From<Mcfg> for Lcfrs"), ("renumbering", "to_lcfrs_rule, composition_deletes")], ["destruct of the converted grammar"])
p("C16", "Converting a one-component PMCFG into a CFG keeps rules, weights and language",
  "For every PMCFG whose rules all have one component, the resulting CFG has the same initial nonterminals and, rule by rule, the same head and weight and the component's symbols in the same order with each variable replaced by the successor it names, so that, if every rule uses each of its successors exactly once, both grammars derive the same strings with the same weights; a rule with several components (or none), or one that uses a missing successor or component, is refused.",
  ["inputs"], "every PMCFG with one component per rule: permuted, repeated and unused successors, terminals anywhere", "One example.",
  ["src/grammars/cfg/from_pmcfg.rs"], [("symbol-wise translation", "From<PMCFG> for CFG")], ["converted grammar"])
p("C17", "Imported discodop and rparse grammars mean what the files say",
  "Reading a discodop grammar (with its lexicon or the default one) gives one rule per line whose composition is spelled by the yield function's bits, left to right, and one rule per word-tag pair, with each count divided by the sum of the counts of its left-hand side if that is positive (so the weights sum to one); the initial nonterminal is ROOT and the default lexicon has exactly the nonterminals that are never a left-hand side. An rparse grammar likewise gives one rule per clause with the written weight and yield function and VROOT1 as initial nonterminal; unreadable files are errors.",
  ["inputs"], "every grammar and lexicon file in these formats, counts and fractions, any fanout and number of variables",
  "Fixed fragments, compared with an equality that ignores weights.",
  ["src/grammars/lcfrs/from_discodop.rs", "src/grammars/lcfrs/from_rparse.rs"], [("bit masks", "parse_yield, From<DiscoDopGrammar>"), ("normalisation", "normalization_denominators"), ("default lexicon", "with_default_lexer")],
  ["destruct of the resulting Lcfrs"], "rparse: the parser type is private; a cfg(rustomata_verif) function exposes text -> Lcfrs")
p("C18", "Equivalence relations map members to their class and all else to the default",
  "An equivalence relation (from a text, from classes, or from a map) maps every listed element to the class that lists it and every other element to the default class. A text or map is refused if a class other than the default has the default's name, if an element is in two classes, if there is no default or it is declared twice, or if a class is declared twice; a list of classes is refused if it has no default. Blank lines of a text are ignored, and two relations are equal exactly if they have the same listed elements, map them alike and have the same default.",
  ["inputs"], "every list of classes and every text in the format label [members] / label *", "A few fixed texts.",
  ["src/approximation/equivalence_classes.rs"], [("disjointness check", "new_safe"), ("line parser", "from_str, parse_class")], ["project, FromStr, new_safe, =="])
p("C19", "Configurations and reversed weights are ordered as documented",
  "Configurations are totally ordered by weight first, then by fewer remaining input symbols, then by word and storage, while equality and hash look at word and storage only; a reversed weight compares opposite to its content and otherwise computes, prints, reads and serialises as it does; factorizing a weight into n factors gives n equal factors whose product is the weight. Items with weights (as agendas hold them) are compared by their weights alone, and a configuration is printed with the symbols still to be read, separated by blanks, its weight and its storage.",
  ["inputs"], "all configurations, weights and factor counts", "Reverse has tests of arithmetic on two constants; configuration order has none.",
  ["src/recognisable/configuration.rs", "src/util/reverse.rs", "src/util/factorizable.rs", "search/src/agenda/weighted.rs"], [("lexicographic comparison", "Ord for Configuration"), ("swapped comparison", "Ord for Reverse"), ("n-th root", "factorize")], ["cmp, partial_cmp, ==, hash, arithmetic"])
p("C20", "Multiple Dyck recognition accepts exactly the words of the partition",
  "For a partition of bracket symbols into cells, both recognisers accept a bracket word exactly if it can be emptied by cancelling, cell by cell, outermost bracket pairs whose symbols form one whole cell and whose insides together reduce the same way; a word with an unbalanced or unknown symbol is rejected. In a sorted language, in which every cell has symbols of one sort, groups directly inside the same group have to be of different sorts.",
  ["inputs"], "every partition and every bracket word over it", "A few fixed words per recogniser.",
  ["src/dyck/multiple/mod.rs", "src/dyck/multiple/automaton/mod.rs", "src/dyck/multiple/automaton/instruction.rs"], [("tree-stack automaton", "automaton/mod.rs"), ("plain and sorted languages", "MultipleDyckLanguage::new, ::sorted")], ["MultipleDyckLanguage::recognize"])
p("C21", "Storage types behave as a pushdown and a tree stack under every instruction",
  "A pushdown is a non-empty stack and a tree stack a tree with a pointer: every instruction applied to a storage gives exactly the successors that its definition allows (none if its precondition fails), never changes the storage it was applied to, and leaves symbols outside the touched position alone; tree-stack predicates (bottom, equals, subset) hold exactly where defined.",
  ["histories", "inputs"], "every sequence of instructions from every reachable storage", "Single applications on fixed storages.",
  ["src/util/push_down.rs", "src/automata/tree_stack_automaton/tree_stack.rs", "src/automata/tree_stack_automaton/tree_stack_instruction.rs", "src/automata/push_down_automaton/mod.rs"],
  [("persistent parent links", "TreeStack"), ("reversed vector", "Pushdown"), ("apply", "Instruction impls")], ["apply, current_symbol, is_bottom, Eq"])
p("C22", "A pushdown automaton built from a CFG recognises exactly its weighted language",
  "For every CFG and word, recognising the word with the pushdown automaton built from the grammar yields one run per leftmost derivation (rules that differ in their weight only count as one rule, with the sum of their weights), each with the product of its rules' weights, and none for words outside the language.",
  ["inputs"], "every CFG without infinite ambiguity or left recursion and every word", "Fixed example grammars and words.",
  ["src/automata/push_down_automaton/from_cfg.rs", "src/automata/push_down_automaton/mod.rs", "src/recognisable/automaton.rs"], [("initial, rule and terminal transitions", "from_cfg"), ("exploration", "recognisable::automaton")], ["PushDownAutomaton::from, recognise: items, weights and runs"])
p("C23", "A tree-stack automaton of a PMCFG recognises exactly its weighted language",
  "For every ordered MCFG and word, recognising the word with the tree-stack automaton built from the grammar yields one run per derivation, with the product of its rules' weights, and none for words outside the language; each run maps back to the derivation whose yield is the word.",
  ["inputs"], "every linear, non-deleting PMCFG whose rules use the components of each successor in their order (rules pairwise different modulo weight) and every word", "Fixed example grammars and words.",
  ["src/automata/tree_stack_automaton/from_pmcfg.rs", "src/automata/tree_stack_automaton/mod.rs"], [("up/down transitions per variable", "from_pmcfg"), ("run to derivation", "to_abstract_syntax_tree")], ["recognise, to_abstract_syntax_tree"])
p("C24", "Recognition enumerates best first, and a beam only drops results",
  "Recognition yields accepting runs in order of non-increasing weight; with a beam every result is also a result without it (same run, same weight), and a beam at least as wide as the number of pending items ever needed changes nothing. Which of several items of the same weight comes first or is dropped is open.",
  ["inputs", "histories"], "every automaton with weights at most one, every word, every beam width", "Only the first result of a few words is looked at.",
  ["src/recognisable/automaton.rs", "search/src/agenda"], [("weighted agenda", "recognise"), ("limited agenda", "recognise_beam_search")], ["sequence of results"])
p("C25", "A finite-state automaton accepts exactly the words spelled by its paths",
  "Recognising a word yields exactly the paths from the initial to a final state that spell it, each with the product of its transition weights, best first; the automaton's transitions are those it was built from.",
  ["inputs"], "every finite automaton (any final states, loops, words of any length on transitions) and every word", "One example automaton.",
  ["src/automata/finite_state_automaton/mod.rs", "src/automata/finite_state_automaton/from_str.rs"], [("unit instruction graph", "FiniteAutomaton")], ["recognise"])
p("C26", "Automata print and read back, and survive integerisation",
  "Turning an automaton's states, terminals and instructions into integers and back gives the original transitions and initial storage; a tree-stack or finite-state automaton text (initial and final declarations, transitions, comments and blank lines) is read as written or, if malformed, refused with an error; printing such an automaton and reading it back gives an automaton with the same transitions, initial storage and final states.",
  ["inputs"], "every automaton and every automaton text in the documented format", "Fixed strings.",
  ["src/automata/tree_stack_automaton/from_str.rs", "src/automata/finite_state_automaton/from_str.rs", "src/recognisable/from_str.rs", "src/recognisable/transition.rs", "src/util/integerisable.rs"], [("from_str/Display", "automata")], ["FromStr, Display, transitions()"])
p("C27", "Approximations accept at least the original language and can be undone",
  "Every word the original automaton accepts is accepted by its approximation with at least the best original weight, and unapproximating a run of the approximation gives exactly the original runs that map onto it.",
  ["inputs"], "every CFG with every equivalence relation (relabelling), every MCFG (tree stack to pushdown), every word", "Fixed grammars and words.",
  ["src/approximation/mod.rs", "src/approximation/relabel.rs", "src/approximation/tts.rs"], [("strategy maps", "RlbElement, TTSElement"), ("reverse transition map", "ApproximationInstance")], ["recognise of the approximation, unapproximate_run"])
p("C28", "Coarse-to-fine recognition finds exactly the fine automaton's parses",
  "Coarse-to-fine recognition of a word yields exactly the runs that the fine automaton accepts for it, with their weights, whatever coarse automata are put in front.",
  ["inputs"], "every fine automaton, every chain of approximations and every word", "First results for example grammars only.",
  ["src/recognisable/coarse_to_fine.rs", "src/approximation/mod.rs"], [("lazy refinement of coarse parses", "CoarseToFineParseForest")], ["sequence of results"])
p("C29", "Chomsky-Schützenberger parsing finds exactly the derivations, best first",
  "For every LCFRS in normal form and every word (terminals that no rule has included), parsing with its Chomsky-Schützenberger representation enumerates exactly the derivations of the word, each once, as trees of rules at Gorn addresses, in order of non-increasing weight; the k best parses are the first k of them. The approximation without a consistent derivation gives a fallback: the best of its candidates read as a tree; where the approximation has no candidate, there is neither parse nor fallback. The debug interface reports the same results with the number of candidates looked at, the number of rules and the length of the word.",
  ["inputs"], "every ordered normal-form LCFRS valid by Lcfrs::new (discontinuous ones, chain rules and cycles of them with a weight below 1 included), with weights in (0, 1], and every word", "Fixed grammars and single best results.",
  ["src/grammars/lcfrs/csparsing/mod.rs", "src/grammars/lcfrs/csparsing/automaton/mod.rs", "src/grammars/lcfrs/csparsing/automaton/chart.rs", "src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs", "src/grammars/lcfrs/csparsing/automaton/kbest/chart_iterator.rs", "src/grammars/lcfrs/csparsing/cowderiv.rs"], [("generator automaton", "automaton"), ("chart and k-best", "automaton, kbest"), ("well-formed derivations", "cowderiv")], ["parse results", "debug results"])
p("C30", "Pruned Chomsky-Schützenberger parsing only loses parses; files keep everything",
  "Whatever beam, threshold, candidate limit and estimate width is chosen, every returned parse is a derivation of the word and the parses come in order of non-increasing weight, each once; with a candidate limit n the parses are the consistent ones among n best candidates; a beam of b leaves at most b constituents per span (the whole word as initial nonterminal apart); where all constituents fit into the beam and the threshold nothing is lost. A representation that is serialised and read back parses every word as the original one does.",
  ["inputs", "configurations"], "every beam, threshold, limit and estimate width, every word and grammar as for C29", "Not tested beyond one configuration.",
  ["src/grammars/lcfrs/csparsing/mod.rs", "src/grammars/lcfrs/csparsing/automaton/mod.rs", "src/grammars/lcfrs/csparsing/automaton/rulemask.rs", "src/grammars/lcfrs/csparsing/automaton/estimates.rs"], [("rule masks", "rulemask"), ("outside estimates", "estimates"), ("beam and threshold", "automaton fill_chart")], ["parse results", "serde round trip"])
p("C31", "Rules are values: equal, hashed and ordered by what they say",
  "Two CFG or PMCFG rules are equal exactly if head, successors and composition coincide, whatever their weights, and then have equal hashes: sets and dictionaries keyed by rules hold one entry for all rules that say the same. Rules are totally ordered by head, then successors, then composition (variables and nonterminals before terminals), then weight; grammars are equal exactly if initial nonterminals and rules are, in order. Renaming the nonterminals of a PMCFG rule changes head and successors by the given function and nothing else, and a PMCFG rule that is serialised and read back is the same, weight included.",
  ["inputs", "histories"], "every pair of rules and every history of a dictionary keyed by rules", "Rules are compared in assertions only; hash, order, renaming and serialisation are untested.",
  ["src/grammars/cfg/mod.rs", "src/grammars/pmcfg/mod.rs"], [("PartialEq and Hash without weight", "CFGRule, PMCFGRule"), ("derived order", "CFGRule, PMCFGRule, VarT, LetterT"), ("map_nonterminals", "PMCFGRule")], ["==, hash, cmp, HashMap and HashSet keyed by rules, map_nonterminals, serde"])
p("C32", "Transitions are values, numbered one to one and filed by topmost symbol",
  "Two transitions are equal exactly if word and instruction coincide, whatever their weights, and then have equal hashes; they are totally ordered by weight, then word, then instruction, so that queues of transitions deliver the heaviest first. Turning transitions into numbered ones with growing symbol tables is one to one at all times: the same symbol always gets the same number and different symbols different ones, nothing else changes, and un-integerising any of them later gives the original. An automaton built from transitions holds exactly these (a pushdown automaton one for all that say the same, with the sum of their weights), each filed under the topmost storage symbol it asks for, the heaviest first.",
  ["inputs", "histories"], "every list of pushdown, tree-stack and finite-state transitions (word lengths, sides and child numbers arbitrary) and every history of numberings", "Integerising single instructions is compared for fixed values.",
  ["src/recognisable/transition.rs", "src/recognisable/automaton.rs", "src/util/integerisable.rs", "src/automata/push_down_automaton/mod.rs", "src/automata/tree_stack_automaton/tree_stack_instruction.rs", "src/automata/finite_state_automaton/mod.rs"], [("equality, hash and order", "Transition"), ("Integerisable1, Integerisable2", "Transition and the instructions"), ("TransitionMap", "the automata's from_transitions")], ["==, hash, cmp, BinaryHeap, integerise, un_integerise, transitions, transition_map"])
p("C33", "The command line prints the best parses of every sentence",
  "For every line of its input, csparsing parse prints the k best derivations of that sentence (all, if there are fewer) as NEGRA blocks, best first, numbered by the line from 0 or, with -l, by the number the line begins with; terminals are the words of the line, or with -p the tokens before the tags that are parsed. Where there is none, it prints one block: the fallback, if asked for and existing, or the sentence under NOPARSE. With -d it reports the number of rules, the length, what was found and the number of candidates looked at for every line. No line influences another one. Extracting the representation from a gzipped grammar or from standard input gives the same; candidate limit, beam and threshold only lose parses. mcfg parse --negra prints the n best derivations of every line, numbered by the line from 1, followed by an empty line.",
  ["inputs", "configurations"], "every sorted normal-form LCFRS, every list of sentences and every combination of options", "The command line has no tests.",
  ["src/bin/csparsing.rs", "src/bin/pmcfg.rs", "src/bin/main.rs", "src/grammars/lcfrs/csparsing/mod.rs", "src/grammars/pmcfg/negra.rs"], [("extract and parse", "csparsing::handle_sub_matches"), ("parse --negra", "pmcfg::handle_sub_matches"), ("blocks", "to_negra, noparse")], ["standard output and error of rustomata csparsing and rustomata mcfg parse --negra"])
p("C34", "The commands of automata print the best runs for every line",
  "For every line of its input, cfg parse, mcfg parse and tsa recognise print the n best runs (all, if there are fewer) of the automaton of the given grammar or text, best first, each once, with its weight, its transitions or its tree of rules, and an empty line after them; with a beam they print some of them, and all if the beam has room for every pending item. approximation relabel and approximation tts print for every line the best run of the approximation with its weight, or None, followed by the line. The automaton commands list exactly the transitions of the automaton, with words and weights. No line influences another one.",
  ["inputs", "configurations"], "every CFG without left recursion, every ordered MCFG, every tree-stack automaton text, every list of lines and every combination of options", "The command line has no tests.",
  ["src/bin/cfg.rs", "src/bin/pmcfg.rs", "src/bin/tree_stack_automata.rs", "src/bin/approximation.rs", "src/recognisable/mod.rs"], [("loop over the lines", "handle_sub_matches"), ("recognise, recognise_beam_search", "Recognisable for the automata")], ["standard output of rustomata cfg, mcfg, tsa and approximation"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
