"""
The properties: their statements (properties.jsonl and MANIFEST.json are generated from
this file by tools/gen.py), how many cases each tier runs, and the rule by which a case
counts as non-trivial.
"""
META = {}
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mechanism, rule, quick, thorough,
      assumptions=(), note="", observe=()):
    META[id] = dict(
        id=id, title=title, statement=" ".join(statement.split()), over=over.split(),
        text=" ".join(text.split()), why=" ".join(why.split()), files=files.split(),
        mechanism=mechanism, rule=" ".join(rule.split()), quick=quick,
        thorough=thorough, assumptions=[" ".join(a.split()) for a in assumptions],
        note=" ".join(note.split()), observe=list(observe))


NO_RECURSION = "rules do not reference themselves, directly or indirectly"

P("C01", "Compiled expansions parse back to the same meaning",
  """Parsing the compiled text of any rule expansion gives an expansion with the same
  meaning: the same words in their letter case, order, alternatives with their weights
  (to 4 decimals), optional and repeated parts, references, tags, and NULL for empty
  groups.  The same holds for the parsed expansion again, and without tags for
  compile(ignore_tags=True).""",
  "inputs programs",
  """every expansion tree built from the public expansion classes (any nesting, tags,
  weights, Unicode text, reference names) outside of the listed known findings""",
  """The tests compile and parse a few dozen hand-written trees; interactions of
  precedence, grouping, tags, weights and escaping appear only in combinations.""",
  "jsgf/expansions.py jsgf/parser.py",
  [("compile() of each expansion class", "jsgf/expansions.py"),
   ("get_exp_parser, _transform_tokens, _post_process", "jsgf/parser.py")],
  """Random expansion trees (depth 1-3, width 1-4) with random words, names, tags and
  weights; non-trivial: more than one kind of expansion in the tree; distinct by tree.""",
  14000, 400000,
  ["alternatives of a weighted set are pairwise different and at least two",
   "names do not contain the comment openers // and /*"],
  observe=["Expansion.compile()", "parse_expansion_string()"])

P("C02", "Grammars and rules survive compiling and parsing, also through files",
  """Parsing what a grammar or a rule compiles to (as a string or written to a file)
  gives the same version, character set, language, name, imports in order, and active
  rules in order with their names, visibility and expansions; disabled rules do not
  appear.  The compiled text is accepted by valid_grammar, and parsed grammars compile
  to the same meaning again.""",
  "inputs programs configurations",
  """every grammar of 1-4 rules with random headers, (qualified) names, imports,
  visibility, disabled rules, case sensitivity""",
  """The tests cover a few fixed grammars; header words, special characters in names,
  imports and rule order interact with the text that follows them.""",
  "jsgf/grammars.py jsgf/rules.py jsgf/parser.py jsgf/references.py",
  [("Grammar.compile, compile_to_file, jsgf_header", "jsgf/grammars.py"),
   ("Rule.compile", "jsgf/rules.py"),
   ("get_grammar_parser, parse_grammar_file", "jsgf/parser.py")],
  """Random grammars; non-trivial: more than one active rule or an import; distinct by
  compiled text.""", 2500, 100000,
  [NO_RECURSION, "rule names are unique and expansions as in C01"],
  observe=["Grammar.compile()", "Grammar.compile_to_file()", "parse_grammar_string()",
           "parse_grammar_file()", "parse_rule_string()", "valid_grammar()"])

P("C03", "Grammar text means what the documented JSGF syntax says",
  """Any grammar, rule or expansion text written by the documented syntax is parsed into
  objects with the meaning the text has by the documented precedence: unary operators
  and tags bind to the atom before them, then sequences, then alternatives.
  Whitespace, line breaks, comments and either line delimiter do not change it.""",
  "inputs",
  """every text rendered from a random syntax tree with minimal or redundant
  parentheses, random whitespace, comments, delimiters, keyword case and header""",
  """The tests parse a fixed list of texts; whitespace, comments, delimiters and
  precedence multiply to combinations that are not listed.""",
  "jsgf/parser.py jsgf/references.py",
  [("the pyparsing grammar and its parse actions", "jsgf/parser.py")],
  """Syntax trees rendered to text (the renderer is cross-checked with a hand-written
  recogniser on every case); non-trivial: more than two tokens; distinct by text.""",
  14000, 400000,
  ["a newline-only line ending is not directly followed by an in-line comment (known "
   "finding)"],
  observe=["parse_expansion_string()", "parse_rule_string()", "parse_grammar_string()",
           "valid_grammar()"])

P("C05", "matches() accepts exactly the language of a rule",
  """Rule.matches(speech) is never True for speech outside of the rule's language, and
  is True for speech in the language that greedy matching from left to right (longest
  alternative, as many repetitions as possible) reaches.  Words match as a whole only.  Letter
  case counts only for case-sensitive literals, spacing between words never does, and
  Grammar.find_matching_rules returns the visible rules that match.""",
  "inputs programs",
  """every set of rules with references (no recursion) over small vocabularies and
  every word sequence in, near or outside of their languages""",
  """The tests match a few dozen sentences; acceptance depends on the combination of
  nesting, nullable parts, repetition, references, weights and speech.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py",
  [("_make_matcher_element of each class, Expansion.matches", "jsgf/expansions.py"),
   ("Rule.matches", "jsgf/rules.py")],
  """1-3 random rules and 1-4 speeches sampled from the language, mutated, or noise;
  non-trivial: speech with words that is in the language; distinct by rules and
  speech.""", 40000, 600000, [NO_RECURSION],
  observe=["Rule.matches()", "Grammar.find_matching_rules()", "Rule.was_matched"])

P("C06", "Match data of every expansion describes how the speech was derived",
  """After a successful match with only one possible derivation, each expansion's
  current_match is the text it matched (joined by single spaces) and matching_slice its
  place in the whitespace-normalised speech; expansions that took no part have '' if
  they are optional or below an optional expansion, otherwise None.  After a failed
  match no expansion keeps a match.""",
  "inputs programs",
  """every set of rules and every speech with a unique derivation that greedy matching
  finds""",
  """The tests look at a few attributes after a few matches; data of one expansion can
  be wrong because of siblings, repetition or earlier attempts only.""",
  "jsgf/expansions.py jsgf/rules.py",
  [("_parse_action, postParse, process in Expansion.matches", "jsgf/expansions.py"),
   ("reset_for_new_match", "jsgf/expansions.py")],
  """Random rules and speeches; all derivations of each speech are enumerated by the
  model; non-trivial: a match with a unique derivation whose data was compared; distinct
  by rules and speech.""", 50000, 600000, [NO_RECURSION,
  """rules referenced more than once in a match keep one set of data only and are not
  compared"""],
  observe=["Expansion.current_match", "Expansion.matching_slice", "Rule.matches()"])

P("C07", "Repetition data records every repetition of every descendant",
  """After a match, a Repeat or KleeneStar reports how many repetitions matched, and for
  each descendant its match text and slice in each repetition in order, whatever other
  comparable expansions there are.  had_match of a descendant is True exactly if it
  matched in some repetition, and current_match values are those of the last one.""",
  "inputs programs",
  "every rule with (nested) repetitions and every speech with a unique derivation",
  """The tests match fixed rules with two or three repetitions; wrong bookkeeping shows
  only for particular repetition counts, comparable siblings or nested repeats.""",
  "jsgf/expansions.py",
  [("Repeat._parse_action, get_expansion_matches, get_expansion_slices, "
    "had_expansion_match", "jsgf/expansions.py"),
   ("Expansion.had_match", "jsgf/expansions.py")],
  """Random rules with repeats; derivations enumerated by the model; non-trivial: a
  match with a repetition whose data was compared; distinct by rules and speech.""",
  40000, 600000, [NO_RECURSION],
  observe=["Repeat.repetitions_matched", "Repeat.get_expansion_matches()",
           "Repeat.get_expansion_slices()", "Expansion.had_match"])

P("C08", "A match does not depend on what was matched before",
  """Matching speech gives the same result, match data and matched tags on a grammar
  that was used before (matching other speech successfully or not, searching, disabling,
  generating, compiling) as on a freshly built one, and so does searching for a matching
  part.  Matching the same speech again changes nothing.""",
  "histories inputs",
  "every sequence of up to 5 earlier operations on every set of rules",
  """Tests build fresh objects and match once or twice; left-over state needs particular
  sequences of partial matches.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py",
  [("reset_for_new_match and reset_match_data", "jsgf/expansions.py"),
   ("Rule.matches", "jsgf/rules.py")],
  """Random rules and histories compared with a fresh, identically built grammar;
  non-trivial: the last speech matched and has words; distinct by rules, history and
  speech.""", 20000, 600000, [NO_RECURSION],
  observe=["Rule.matches()", "Expansion.current_match", "Rule.matched_tags"])

P("C04", "Text is parsed exactly if it follows the documented syntax",
  """Every text that does not follow the documented syntax makes the parse functions raise
  a ParseException, a GrammarError or (negative weights) a TypeError, never anything
  else, and never an object; every text that follows it is parsed.  valid_grammar
  returns True exactly for the grammars that can be parsed and never raises.""",
  "inputs",
  """every token sequence, random or a mutated valid text; valid grammars broken in one
  of thirty ways; arbitrary character sequences""",
  """The tests list about thirty invalid texts; the parser's hand-written token
  transformations can fail on any other combination of operators.""",
  "jsgf/parser.py jsgf/references.py jsgf/rules.py jsgf/grammars.py",
  [("get_exp_parser, _transform_tokens, ParsedAlternativeSet", "jsgf/parser.py"),
   ("valid_grammar", "jsgf/parser.py")],
  """Token sequences decided by a hand-written recogniser of the documented EBNF, broken
  grammars, and character sequences; non-trivial: more than three tokens, a broken
  grammar, or accepted characters; distinct by text.""", 12000, 500000,
  ["sets with weights for some alternatives only are unspecified",
   "alternatives of weighted sets that are equal are not compared"],
  observe=["parse_expansion_string()", "parse_rule_string()", "parse_grammar_string()",
           "valid_grammar()"])

P("C09", "A changed grammar behaves like one built that way from the start",
  """After any sequence of changes (children, literals, tags, weights, references, whole
  expansions, rules added, removed or replaced, visibility, case sensitivity), made
  between matches, a grammar compiles to the same text and gives the same match results
  and match data as a grammar newly built with the final contents.""",
  "histories inputs",
  """every interleaving of up to 5 changes with matches on every set of rules""",
  """The tests match, change one thing and match again for a few kinds of changes; a
  stale cached matcher needs the change to reach it through particular parents and
  references.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py",
  [("invalidate_matcher and the property setters calling it", "jsgf/expansions.py"),
   ("ChildList", "jsgf/expansions.py"), ("Rule._set_expansion", "jsgf/rules.py"),
   ("Grammar.add_rule, remove_rule", "jsgf/grammars.py")],
  """Random change histories on library objects and model in parallel; non-trivial: at
  least one change was made and a speech matched afterwards; distinct by final rules.""",
  10000, 300000,
  [NO_RECURSION, "alternatives of a weighted set stay pairwise different"],
  observe=["Grammar.compile()", "Rule.matches()", "Expansion.current_match"])

P("C10", "Child lists act like Python lists and keep parent links right",
  """The children of an expansion behave like a Python list of expansions (contents,
  order, results and errors of every list operation they have), strings becoming literals and
  other objects being rejected without effect.  At any time exactly the members have
  the expansion as their parent; removed members have none.""",
  "histories inputs",
  "every sequence of up to 8 list operations with any indices and slices",
  """The tests do each operation once on a fixed list; parents go wrong for particular
  slices, indices, comparable members or repeated operations.""",
  "jsgf/expansions.py",
  [("ChildList", "jsgf/expansions.py"),
   ("Expansion.children and Expansion.parent setters", "jsgf/expansions.py")],
  """Random operation sequences compared with a Python list step by step; non-trivial: at
  least two kinds of operations; distinct by the sequence.""", 80000, 600000,
  ["an expansion is in one child list at most, once"],
  observe=["Expansion.children", "Expansion.parent"])

P("C11", "Copies and unpickled objects equal, and are independent of, the original",
  """A deep copy of an expansion equals the original (also in tags, weights, letter case
  and case sensitivity), compiles and matches the same, has no part in common with it
  and leaves it alone; changing one never changes the other.  A shallow copy
  shares the children only.  Pickling an expansion, a
  rule or a grammar of any kind, before or after matching, gives back equal objects with
  the same links, match data and behaviour.""",
  "inputs histories",
  """every expansion tree, any place in it, any match history, every pickle protocol""",
  """The tests copy a dozen small expansions without weights or case sensitivity and
  pickle two grammars.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py jsgf/ext/rules.py "
  "jsgf/ext/grammars.py",
  [("__copy__, __deepcopy__, __getstate__", "jsgf/expansions.py"),
   ("ChildList (pickling)", "jsgf/expansions.py")],
  """Random grammars, some already matched, and one copied or pickled part; non-trivial:
  every case; distinct by grammar and kind of copy.""", 24000, 300000,
  ["deep copies of whole rules and grammars (copy.deepcopy) are not considered",
   "expansions with Dictation are not compared with =="],
  observe=["Expansion.copy()", "pickle.dumps()", "pickle.loads()"])

P("C12", "Equality means same structure, and hash values agree with it",
  """Expansions, rules, grammars, imports and references compare equal exactly if they
  have the same structure (types, text, case sensitivity, names, weights, children;
  alternatives in any order, tags ignored).  == is reflexive, symmetric and transitive,
  != is its negation, comparing with anything else is False and never an error.  Equal
  objects have equal hash values, which using or tagging an expansion does not change.""",
  "inputs",
  """every pair of expansions, in particular pairs that differ in one detail""",
  """The tests compare about thirty hand-picked pairs.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py jsgf/references.py "
  "jsgf/ext/rules.py",
  [("__eq__ and __hash__ of every class", "jsgf/expansions.py"),
   ("Rule.__eq__, Rule.__hash__", "jsgf/rules.py"),
   ("Grammar.__eq__", "jsgf/grammars.py"), ("BaseRef.__eq__", "jsgf/references.py")],
  """Pools of variants of one random expansion, all pairs compared; non-trivial: the pool
  has both equal and different expansions; distinct by pool.""", 12000, 300000,
  ["alternatives of weighted sets are pairwise different",
   "expansions with Dictation have hash values depending on their ancestors and are "
   "left out"],
  observe=["Expansion.__eq__()", "Expansion.__hash__()", "Rule.__eq__()"])

P("C13", "Traversals and tree queries give what their definitions say",
  """map_expansion, flat_map_expansion, filter_expansion and find_expansion visit exactly
  the expansions of the tree (through references unless shallow), in the chosen order.
  Leaves, root, optionality, alternatives, repetition ancestors, descendants and mutual
  exclusivity agree with the tree's structure, also if asked repeatedly, after changing
  the tree (and invalidating calculations, as documented), and with the
  joined tree inside a JointTreeContext, which leaves the trees as they were.""",
  "inputs",
  "every rule tree and every pair of expansions in it",
  """The tests query a few small trees; stored calculations depend on the order of
  queries.""",
  "jsgf/expansions.py",
  [("map_expansion, find_expansion, flat_map_expansion, filter_expansion",
    "jsgf/expansions.py"),
   ("JointTreeContext", "jsgf/expansions.py"),
   ("is_descendant_of, mutually_exclusive_of, leaves_after", "jsgf/expansions.py")],
  """Random rule trees with references, random queries; non-trivial: more than three
  expansions; distinct by rules.""", 18000, 200000,
  ["is_alternative is not compared below sets of one alternative",
   "mutual exclusivity is not compared for expansions of rules referenced repeatedly"],
  observe=["map_expansion()", "find_expansion()", "Expansion.leaves",
           "Expansion.mutually_exclusive_of()"])

P("C14", "Dependencies follow references; rules in use are not removed by accident",
  """dependencies is the set of rules reachable by references, dependent_rules the set of
  rules in the grammar that reach a rule, reference_count its size, after any sequence of
  changes.  remove_rule raises a GrammarError and changes nothing if rules depend on the
  rule, unless told to ignore that, or if there is no such rule; otherwise exactly that
  rule is gone and references to it cannot be resolved.""",
  "histories inputs",
  """every sequence of up to 6 changes to the rules and references of a grammar""",
  """The tests check two fixed grammars with direct references.""",
  "jsgf/rules.py jsgf/grammars.py jsgf/expansions.py",
  [("Rule.dependencies, dependent_rules, reference_count", "jsgf/rules.py"),
   ("Grammar.remove_rule", "jsgf/grammars.py"),
   ("NamedRuleRef.referenced_rule", "jsgf/expansions.py")],
  """Random change histories with a graph kept in step; non-trivial: at least two changes
  and some reference; distinct by history.""", 8000, 300000, [NO_RECURSION],
  observe=["Rule.dependencies", "Rule.dependent_rules", "Rule.reference_count",
           "Grammar.remove_rule()"])

P("C15", "A grammar is an ordered collection of rules with unique names",
  """After any sequence of additions, removals, renamings, enabling, disabling and changes
  of visibility: rules are listed in order and found by name; a comparable rule is
  ignored, another rule of the same name (or a renaming to it) rejected without effect; the compiled text is
  header, name, imports and exactly the enabled rules in order; find_matching_rules gives
  exactly the visible enabled rules that match, find_tagged_rules those with the tag.""",
  "histories inputs",
  """every sequence of up to 9 container operations""",
  """The tests do single operations on fixed grammars; which rule an operation reaches
  depends on comparable rules and earlier operations.""",
  "jsgf/grammars.py jsgf/rules.py",
  [("Grammar.add_rule, remove_rule, enable_rule, disable_rule", "jsgf/grammars.py"),
   ("Grammar.compile, compile_as_root_grammar, find_matching_rules",
    "jsgf/grammars.py"), ("Rule.enable, disable", "jsgf/rules.py")],
  """Random operation sequences compared with a list model after each step; non-trivial:
  three kinds of operations took effect; distinct by history.""", 6000, 200000, [],
  observe=["Grammar.rules", "Grammar.compile()", "Grammar.find_matching_rules()"])

P("C16", "The root grammar matches what some visible rule of the grammar matches",
  """Compiling as a root grammar gives a text that parses to a grammar with the same name
  and enabled rules plus one public rule, an alternative set of references to exactly
  the visible enabled rules in order; it matches exactly the speech that some visible
  enabled rule matches.  Compiling leaves the grammar as it was.  RootGrammar compiles
  to this text always, also into files.""",
  "inputs programs",
  """every grammar of up to 4 rules with any visibility, enabled flags and references""",
  """The tests compare the text of a few fixed grammars and never use the result.""",
  "jsgf/grammars.py jsgf/parser.py",
  [("Grammar.compile_as_root_grammar, compile_to_file", "jsgf/grammars.py"),
   ("RootGrammar", "jsgf/grammars.py"), ("parse_grammar_string", "jsgf/parser.py")],
  """Random grammars compiled, parsed and matched against speech decided by the reference
  language; non-trivial: a non-empty speech that some visible rule matches; distinct by
  rules and speech.""", 6000, 250000,
  [NO_RECURSION, "no rule is called root",
   "rules that are referenced are enabled"],
  observe=["Grammar.compile_as_root_grammar()", "RootGrammar.compile()",
           "Grammar.compile_to_file()", "Grammar.find_matching_rules()"])

P("C17", "Case sensitivity reaches exactly the literals it is set for",
  """Setting case sensitivity of a grammar, a rule (with its referenced rules) or a
  literal, or adding a rule to a grammar, changes exactly the flags it is documented to
  change, at any time and in any order.  A literal's text, its compiled form and
  generated text are lowercase unless it is case-sensitive, and it matches in any letter
  case unless it is case-sensitive, whatever letters it has.""",
  "histories inputs",
  """every sequence of settings on every set of rules with references, texts with letters
  that change length with their case""",
  """The tests set each flag once on fixed rules; references, order and cached matchers
  need combinations.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py",
  [("Literal.case_sensitive, Literal.text", "jsgf/expansions.py"),
   ("Rule._set_case_sensitive", "jsgf/rules.py"),
   ("Grammar.case_sensitive, add_rule", "jsgf/grammars.py")],
  """Random settings on library objects and model flags in parallel, with matches in
  random letter case; non-trivial: a non-empty speech matched; distinct by history.""",
  30000, 300000, [NO_RECURSION],
  observe=["Literal.text", "Literal.case_sensitive", "Rule.matches()",
           "Rule.compile()"])

P("C18", "Names are resolved through import statements as documented",
  """A reference or lookup finds the local rule of that name, else the one imported public
  rule with that name, qualified or fully-qualified name, else the public rule of that
  fully-qualified name from its file (dotted file name before directories, extensions in
  order); unknown, private, missing or ambiguous names raise errors.  Matching through
  imports, also cyclic ones, equals matching with all rules in one grammar.""",
  "inputs histories programs",
  """every set of grammar files with same-named rules and any imports between them, and
  every sequence of lookups, matches and resolutions""",
  """The tests use ten fixed files; which rule a name reaches depends on the combination
  of local names, import statements, earlier lookups and files.""",
  "jsgf/grammars.py jsgf/expansions.py",
  [("Import.resolve, _get_import_grammar", "jsgf/grammars.py"),
   ("Grammar.get_rule_from_name, resolve_imports", "jsgf/grammars.py"),
   ("NamedRuleRef.referenced_rule", "jsgf/expansions.py")],
  """Random grammar files in a scratch directory and random queries compared with a model
  of resolution and the reference language of the flattened rules; non-trivial: a name
  resolved, or speech matched through an import; distinct by files and queries.""",
  4000, 120000,
  [NO_RECURSION,
   "grammar files are named after their grammars",
   "no grammar name equals another grammar's rule name in full",
   "names that are one rule's qualified and another rule's full name are left out"],
  observe=["Grammar.get_rule()", "Grammar.find_matching_rules()", "Import.resolve()",
           "Grammar.resolve_imports()", "Rule.dependencies"])

P("C19", "Tags of rules and of matches are those of the tagged expansions",
  """Rule.tags lists the tags of all expansions of a rule and its referenced rules in the
  order of the compiled text; has_tag and find_tagged_rules agree with it.  After
  matching, matched_tags (also get_tags_matching) lists in that order the tags of exactly
  the expansions that matched some of the speech, in any repetition; after a failed match
  (or one of a disabled rule)
  it is empty.  A tag is stored without surrounding whitespace; only text is accepted.""",
  "inputs histories",
  """every set of rules with tags anywhere and every speech with a unique derivation""",
  """The tests look at about ten tagged rules; the set of matched tags depends on nested
  optional, repeated and referenced parts and on earlier matches.""",
  "jsgf/rules.py jsgf/expansions.py jsgf/grammars.py",
  [("Rule.tags, matched_tags, has_tag, get_tags_matching", "jsgf/rules.py"),
   ("Expansion.tag, had_match", "jsgf/expansions.py"),
   ("Grammar.find_tagged_rules", "jsgf/grammars.py")],
  """Random tagged rules, tag changes and matches; derivations enumerated by the model;
  non-trivial: a match with matched tags that were compared; distinct by rules and
  operations.""", 22000, 400000,
  [NO_RECURSION,
   "matched tags of rules referenced repeatedly are not compared"],
  observe=["Rule.tags", "Rule.matched_tags", "Rule.get_tags_matching()",
           "Rule.has_tag()", "Grammar.find_tagged_rules()"])

P("C20", "Generated strings belong to the language; weights decide how often",
  """Whatever random numbers are drawn, a string generated from a rule or any expansion in
  it is in its language and matches the rule; a disabled rule generates ''.  Alternatives
  are chosen with probability weight over the sum of weights (equal without weights),
  those of weight 0 never, anew for each repetition and each part of a sequence; optional
  and repeated parts can be left out, occur once and occur repeatedly, as far as they
  allow.""",
  "inputs schedules",
  """every set of rules and every sequence of random numbers""",
  """The tests fix the random numbers of five small expansions.""",
  "jsgf/expansions.py jsgf/rules.py",
  [("generate of each class", "jsgf/expansions.py"), ("Rule.generate", "jsgf/rules.py")],
  """Random rules and random seeds, strings decided by the reference language; frequencies
  over 600 draws with limits of 9 standard deviations; non-trivial: a non-empty string
  that matched, or frequencies compared; distinct by rules and strings.""",
  30000, 400000,
  [NO_RECURSION, "rules without VOID and Dictation (known findings)",
   "sets with weights have one above 0"],
  observe=["Rule.generate()", "Expansion.generate()", "Rule.matches()"])

P("C21", "find_matching_part returns the first matching part of the speech",
  """Searching speech gives the part that starts at the first word from which the rule
  matches and extends as far as matching goes, as spoken (letter case kept, single
  spaces); it matches the rule.  If no part matches, or the rule is disabled, the result
  is None.""",
  "inputs",
  """every set of rules that need some speech, and every speech with matching parts
  anywhere among other words""",
  """The tests search six sentences with three rules.""",
  "jsgf/rules.py jsgf/expansions.py",
  [("Rule.find_matching_part", "jsgf/rules.py"),
   ("_make_matcher_element of each class", "jsgf/expansions.py")],
  """Random rules and speech with sentences among noise, the part computed by the model;
  non-trivial: a part was found; distinct by rules and speech.""", 50000, 400000,
  [NO_RECURSION, "rules that can match nothing are left out"],
  observe=["Rule.find_matching_part()", "Rule.matches()"])

P("C22", "Weights stay with their alternatives, whatever happens to the set",
  """A weight set for an alternative by expansion, index or compiled text stays with this
  alternative when others are added, removed, replaced, re-ordered or re-weighted, its
  text changes, or the set is copied or pickled.  compile() writes /w/ with 4 decimal
  places before each alternative.  Weight 0 means never matched or generated; of
  alternatives that match alike the one with the highest weight matches.  With weights
  for some alternatives only, compiling, matching and generating raise GrammarError.
  Negative weights and those of no number, and indices out of range, are errors that
  change nothing.""",
  "inputs histories",
  """every set of alternatives and every history of changes of weights and alternatives""",
  """The tests set weights of two or three literals once.  Weights are stored in a
  dictionary whose keys' hash values depend on text that can change.""",
  "jsgf/expansions.py",
  [("AlternativeSet.set_weight, weights, compile, generate, copying",
    "jsgf/expansions.py"), ("ChildList", "jsgf/expansions.py")],
  """Random histories of changes on a set in a rule compared with a list of pairs;
  non-trivial: weights were set, changed and compared; distinct by history.""",
  40000, 400000,
  ["alternatives are not equal to each other (keys of weights are compared with ==)",
   "weights that are all 0 are not used for matching"],
  observe=["AlternativeSet.weights", "set_weight()", "Rule.compile()",
           "Rule.matches()", "generate()"])

P("C23", "Names are accepted exactly when they are well-formed and not reserved",
  """Rule names consist of letters and digits of any script, _ and +-;:,=|/\\()[]@#%!^&~$;
  grammar names are those without ; joined by dots; references are rule names or
  qualified names; imports are qualified names or end with .*.  NULL and VOID are
  reserved.  Constructors, name assignments and valid() of every class agree with this;
  anything else is a GrammarError that leaves the old name, and the parser reads the same
  names.  Valid names survive renaming in use, compiling and parsing.""",
  "inputs",
  """every text used as a name""",
  """The tests try about forty names in constructors.  Names with unusual characters can
  be accepted by one way in and rejected by another one, or by the parser.""",
  "jsgf/references.py jsgf/rules.py jsgf/grammars.py jsgf/expansions.py jsgf/parser.py",
  [("is_valid_name and name parsers", "jsgf/references.py"),
   ("Rule.name, NamedRuleRef.name, Import", "jsgf/rules.py"),
   ("rule, import and grammar declarations", "jsgf/parser.py")],
  """Random names with valid, invalid and special characters anywhere, for twelve classes;
  non-trivial: some uses were valid and some were not; distinct by names.""",
  4000, 150000,
  ["names are text", "names with // or /* are not parsed (comments)",
   "whitespace around names in grammar text is not part of them"],
  observe=["constructors", "name", "valid()", "compile()", "parse functions"])

P("C24", "Expanding dictation expansions keeps their language",
  """expand_dictation_expansion() returns expansions without optional parts next to
  dictation and without alternatives with dictation among others, so that SequenceRule
  accepts them; together they match exactly what the original matches, apart from nothing
  at all (and never more: choices inside repetitions are made once for all repetitions).
  There are no duplicates, weights of remaining alternatives are kept, those of weight 0
  never become spoken; the original is not changed nor used in the results; expanding a
  result gives just it.""",
  "inputs",
  """every expansion with Dictation that has references to plain rules only""",
  """The tests list the expected results of about twenty expansions; the algorithm copies
  the whole tree for every choice and finds the place again by comparison, so errors show
  with equal parts, nested choices and weights.""",
  "jsgf/ext/expansions.py",
  [("expand_dictation_expansion", "jsgf/ext/expansions.py"),
   ("deep copies of expansions", "jsgf/expansions.py")],
  """Random expansions with dictation and choices; the languages are enumerated completely
  with at most two repetitions and one token per dictation; non-trivial: the expansion
  was split or changed; distinct by expansion.""",
  60000, 1500000,
  ["at most four Dictation expansions and six choices",
   "RuleRefs to rules without dictation are the only references (known findings)",
   "tags of removed sets and optional groupings are not compared"],
  observe=["expand_dictation_expansion()", "SequenceRule()"])

P("C25", "Sequence rules match their parts one after another",
  """A SequenceRule's parts are, in order, each Dictation and each longest run of other
  expansions: joined, they match what the expansion matches.  matches() decides the
  current part only and then refuses until set_next, restart_sequence or refuse_matches
  = False; set_next moves on while there are parts; compile() is '' when refusing or at
  dictation.  When all parts matched, entire_match and the original expansion (and its
  Dictation expansions) hold what was spoken; before that they don't.  Repetition of the
  whole rule is recognised; case sensitivity is set in all parts and the original; expansions that must be expanded first are GrammarErrors.""",
  "inputs histories",
  """every sequence of dictation and other expansions and every history of calls""",
  """The tests call the methods in the intended order for six rules.""",
  "jsgf/ext/rules.py jsgf/ext/expansions.py",
  [("SequenceRule", "jsgf/ext/rules.py"),
   ("calculate_expansion_sequence", "jsgf/ext/expansions.py"),
   ("Dictation.use_current_match", "jsgf/ext/expansions.py")],
  """Random sequences and random calls compared with a model (position, refusal, matches);
  languages of parts enumerated; non-trivial: a part matched; distinct by rule and
  calls.""", 40000, 1500000,
  ["repetitions contain the whole rule, or dictation only, or none",
   "matches of the original are compared if the dictated words are no words of the rule"],
  observe=["SequenceRule.matches()", "expansion_sequence", "entire_match", "compile()",
           "has_next_expansion", "refuse_matches", "original_expansion"])

P("C26", "Dictation grammars generate, match, advance and compile their rules",
  """A DictationGrammar's rules are those added and those generated from them, whose parts
  together match what the rule matches; names are never used twice and a refused addition
  changes nothing.  find_matching_rules returns the visible, enabled rules whose current
  part matches, moves on those of them with more parts (unless told not to), and when the
  last part matches the original rule and its Dictation expansions hold everything that
  was spoken.  compile() has the grammar's header, imports and exactly the rules that can
  be spoken without dictation now.  Removing, disabling, resetting and setting case
  sensitivity affect all generated rules.""",
  "inputs histories",
  """every history of additions, matches and other calls""",
  """The tests use grammars of a few rules and at most three utterances.""",
  "jsgf/ext/grammars.py jsgf/ext/rules.py jsgf/ext/expansions.py",
  [("DictationGrammar", "jsgf/ext/grammars.py"),
   ("SequenceRule.graft_sequence_matches", "jsgf/ext/rules.py"),
   ("expand_dictation_expansion", "jsgf/ext/expansions.py")],
  """Random histories of calls compared with a model of the grammar's rules, parts and
  positions after each call; non-trivial: something matched; distinct by history.""",
  15000, 500000,
  ["dictation is repeated alone or not at all; RuleRefs only to rules "
   "without dictation (known findings)",
   "the original's match is compared if one of its generated rules matched and the "
   "dictated words are no words of the rules"],
  observe=["DictationGrammar"])

P("C27", "Dictation takes all words up to what may follow it",
  """In a rule, a Dictation matches one or more words of any kind, up to a word with which
  something that may follow it begins (later parts, all alternatives, optional parts,
  references and the next repetition included; whole words, letter case according to the
  literal), one word only if dictation may follow, everything if nothing does.  So a rule
  matches if the dictated words are none of those that may follow, matches nothing that
  isn't in its language, and current_match of the Dictation is what was dictated.  With
  a JointTreeContext, what follows the reference counts too.  find_matching_part treats
  dictation the same way.""",
  "inputs",
  """every rule with dictation, references and repetitions and every speech""",
  """The tests have one or two Dictation expansions beside literals.""",
  "jsgf/ext/expansions.py jsgf/expansions.py",
  [("Dictation._make_matcher_element", "jsgf/ext/expansions.py"),
   ("Expansion.matches", "jsgf/expansions.py"),
   ("JointTreeContext", "jsgf/expansions.py")],
  """Random rules and speeches (in the language, near it, or noise) against greedy
  matching of the model with FIRST and FOLLOW sets; non-trivial: a Dictation matched;
  distinct by rule and speeches.""", 50000, 1500000,
  ["alternatives are matched without backtracking, the longest first",
   "current_match of Dictation in repetitions is not compared here"],
  observe=["Rule.matches()", "Dictation.current_match", "had_match"])

P("C28", "Looking at grammars, rules and expansions changes nothing",
  """Compiling, comparing, hashing, printing, traversing, querying, copying, pickling and
  expanding grammars, rules and expansions - and calls that are refused with an error -
  leave their structure, match data and later matches as they were, give the same result
  when repeated, and return collections of the caller's own: changing these has no
  effect.""",
  "inputs histories",
  """every set of rules and every sequence of matches and of calls that only look""",
  """Tests look at objects once and don't compare everything else afterwards.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py jsgf/ext/expansions.py",
  [("Expansion", "jsgf/expansions.py"), ("Rule", "jsgf/rules.py"),
   ("Grammar", "jsgf/grammars.py"),
   ("expand_dictation_expansion", "jsgf/ext/expansions.py")],
  """Random grammars, matches and calls; the observable state is compared before and after
  each call and with a second grammar that was not looked at; non-trivial: all; distinct
  by grammar and calls.""", 10000, 400000,
  [NO_RECURSION, "weights, children and import_environment are the objects themselves, "
   "to be changed by the caller",
   "groups are not empty (compiling these adds a child, as documented)"],
  observe=["Grammar", "Rule", "Expansion"])

P("C29", "Match data can be saved, set, reset and restored",
  """save_current_matches has the current_match and matching_slice of every expansion of a
  tree and of the rules it references; restore_current_matches brings exactly these back
  after any other matches, or only those that aren't None.  current_match accepts strings
  (with single spaces afterwards) and None, '' and None meaning no match, matching_slice
  slices and None; other types are TypeErrors that change nothing.  reset_for_new_match
  clears everything.""",
  "inputs histories",
  """every set of rules and every sequence of matches, settings, saves and restores""",
  """The functions are not used in the tests at all.""",
  "jsgf/expansions.py",
  [("save_current_matches, restore_current_matches", "jsgf/expansions.py"),
   ("Expansion.current_match, matching_slice, reset_for_new_match",
    "jsgf/expansions.py")],
  """Random rules and sequences of calls compared with recorded data; non-trivial:
  something was saved and something matched; distinct by rules and calls.""",
  50000, 1000000,
  [NO_RECURSION, "no two expansions of the rules are equal (data are saved by "
   "comparison)"],
  observe=["save_current_matches()", "restore_current_matches()",
           "Expansion.current_match", "Expansion.matching_slice"])


P("C30", "A refused change leaves everything as it was",
  """Assigning, adding or constructing something invalid - children, parents, tags, texts,
  names, weights, expansions, rules, imports - raises the documented error (TypeError,
  GrammarError, CompilationError, or that of a list) and then the grammar, its rules and
  expansions, their links, match data and later matches, the objects that were given to
  the call and files are as before.  The same holds for errors raised by the caller's own
  functions, and within JointTreeContext.""",
  "inputs histories",
  """every grammar, every history of matches and every refused change""",
  """Tests check that an error is raised, not what it leaves behind.""",
  "jsgf/expansions.py jsgf/rules.py jsgf/grammars.py jsgf/ext/grammars.py",
  [("ChildList", "jsgf/expansions.py"), ("Expansion.children", "jsgf/expansions.py"),
   ("Rule._set_expansion", "jsgf/rules.py"), ("AlternativeSet.weights",
   "jsgf/expansions.py"), ("Grammar.add_rule", "jsgf/grammars.py"),
   ("DictationGrammar.add_rule", "jsgf/ext/grammars.py")],
  """Random grammars, matches and refused calls; the observable state is compared before
  and after each and with a second grammar without them, at the end after a change of a
  literal; non-trivial: all; distinct by grammar and calls.""", 12000, 400000,
  [NO_RECURSION, "add_rules and add_imports with several arguments add these one by one"],
  observe=["Grammar", "Rule", "Expansion"])
