"""The properties: text of properties.jsonl and of MANIFEST.json (tools/gen.py writes both)."""
V, VP, CO = 'core/src/version/version.rs', 'core/src/version/version_part.rs', 'core/src/version/comp_op.rs'
PEP, CP, MA, ST = ('core/src/version/custom_parts/pep440.rs', 'core/src/version/parsers/conda.rs', 'core/src/version/matching.rs',
                   'core/src/version/spec_trees.rs')
ER, RE, PY, LI = 'core/src/version/errors.rs', 'core/src/repodata/repodata.rs', 'python/src/python_interface.rs', 'core/src/lib.rs'
AI = 'abstract interpretation of the compiler\'s MIR'
P = []


def prop(id, title, statement, over, quant, tests, files, mech, note='', tech=AI, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, tests=tests, files=files, mech=mech, note=note, tech=tech, na=na))


prop('C01', 'Version comparison is mirrored and reflexive',
     'Comparing two versions the other way round gives the mirrored answer: less becomes greater, equal stays equal. Every version compares equal to itself.',
     'inputs', 'all pairs of versions with any number of parts of any kind and content',
     'Unit tests compare a few dozen literal pairs, each in one direction; mirroring over all pairs of part sequences is never exercised.',
     [V, VP], [('pairwise walk over both part sequences', V + ' compare_iter'), ('order between parts', VP + ' PartialOrd for VersionPart')])
prop('C02', 'The first differing part decides; missing parts count as neutral',
     'Two versions are compared part by part from the left and the first position whose parts differ decides. Where one version has run out, its missing parts '
     'count as the neutral value of the same kind as the other side\'s part (zero, or empty text), so versions differing only by trailing neutral parts are equal.',
     'inputs', 'all pairs of versions, any lengths, any parts',
     'Tests have pairs that differ by at most one or two trailing parts; a difference behind several equal or neutral trailing parts is not sampled.',
     [V, VP], [('pairwise walk with padding', V + ' compare_iter'), ('neutral value of each kind', VP + ' ProvideEmptyImpl')])
prop('C03', 'Version parts are totally ordered, consistently with equality',
     'Any two version parts of any kinds are comparable; the order is mirrored, reflexive and transitive, and two parts are equal exactly when neither is less than the other.',
     'inputs', 'all pairs and triples of parts: every kind, number and text',
     'Tests sample a handful of part pairs; transitivity and totality over all texts and kinds cannot be sampled.',
     [VP, PEP], [('order between kinds', VP), ('order of qualifier texts', PEP)])
prop('C04', 'Kinds of version parts rank in a fixed order, contents decide within',
     'Between different kinds of parts the kind alone decides (epochs and numbers by the documented ranking against texts, whatever their content), and within the numeric kinds '
     'the number decides. The neutral value that stands for a missing part is zero for numbers and the empty text for texts.',
     'inputs', 'all pairs of parts of every kind with any content',
     'Tests sample few mixed-kind pairs and never extreme numbers.',
     [VP], [('comparison of kinds', VP + ' PartialOrd for VersionPart'), ('neutral value', VP + ' get_empty')])
prop('C05', 'Qualifier texts order dev < anything else < none < post, ignoring case',
     'Among qualifier texts inside a version, one containing "post" outranks the absent qualifier, the absent qualifier outranks every other text, and every other text outranks one '
     'containing "dev". The spelling\'s letter case never matters.',
     'inputs', 'all pairs of qualifier texts over all of Unicode',
     'Tests use lower-case literals like "post1", "dev2", "rc1"; the classes quantify over every text containing the word in any case.',
     [PEP], [('classification and comparison of qualifier texts', PEP)])
prop('C06', 'All comparison operators agree with the three-way comparison',
     'For every pair of versions, each comparison operator, the language-level equality and ordering operators and the variants that take a text answer exactly what the three-way '
     'comparison of the same two versions says, read as "this version, operator, other version".',
     'inputs', 'all pairs of versions and all operators (the "compatible" pair is not implemented)',
     'Tests check literal triples; agreement of sibling entry points over all version pairs is not checked.',
     [V, CO], [('operator dispatch', V + ' compare_to_version'), ('language operators', V + ' PartialOrd/PartialEq for Version')])
prop('C07', 'The prefix test compares every part of the prefix',
     'A version starts with another exactly when it has at least as many parts and every part of the other equals the part at the same position. The prefix operator and its negation '
     'answer this and its opposite.',
     'inputs', 'all pairs of versions',
     'Tests sample a few literal prefixes; longer prefixes, unequal last parts and empty versions are not covered.',
     [V], [('prefix walk', V + ' startswith')])
prop('C08', 'A version keeps the text it was read from, and its parts',
     'However a version is built from a text, its text, its displayed form and the text of its copies are exactly that text, and its parts are exactly what the parser answered for it '
     '(a failing parser\'s error is passed on). The part count and indexed access agree with the part list, and an index outside it is an error, not a panic.',
     'inputs', 'all texts, all parsers, all indices',
     'Tests compare a few literal versions; blank padding, other parsers and out-of-range indices are barely sampled.',
     [V], [('construction from a parser\'s answer', V + ' Version::parse'), ('accessors', V + ' as_str/parts/part/part_count')])
prop('C09', 'Reading a version text never panics',
     'Whatever the text, the entry points that read a version and answer a result return a version or an error; they never panic. Comparing or prefix-testing any two versions never panics.',
     'inputs', 'all texts over all of Unicode; all pairs of versions',
     'Tests try a handful of malformed texts; overflowing numbers, multi-byte characters next to separators and repeated marks are not sampled.',
     [CP, V], [('conda version grammar', CP + ' conda_parser'), ('comparison', V)])
prop('C10', 'Parsing and matching a specification never panics',
     'Whatever the text, reading it as a version specification or compound specification returns a specification or an error and never panics; and matching an accepted specification against '
     'any version returns an answer and never panics.',
     'inputs', 'all specification texts; all versions',
     'Tests try few malformed specifications and never match every accepted form.',
     [MA, ST, V], [('classification of specifications', MA + ' get_matcher'), ('operator specifications', MA + ' create_match_enum_from_operator_str'), ('matching', V + ' compare_to_version')])
prop('C11', 'Exactly the texts with one epoch mark and one local mark are versions',
     'A text is rejected exactly when it has more than one "!" or more than one "+", or when the text before "!" is not a number in the 16-bit range; every other text is accepted.',
     'inputs', 'all texts', 'Tests have four or five rejected literals and a list of accepted ones.',
     [CP], [('splitting at epoch and local marks', CP + ' conda_parser')])
prop('C12', 'Each digit run and text run of a version becomes one part, in order',
     'Reading a version yields, in order: the epoch if present, one number for each digit run, one qualifier for each maximal run of other characters between separators, and last the local '
     'label as one text; nothing is dropped, reordered or merged, and contents are unchanged.',
     'inputs', 'all arrangements of runs, dots, epoch and local label (to a stated length) with arbitrary contents',
     'Tests parse a few dozen literals.',
     [CP], [('tokenising regular expression and part construction', CP + ' conda_parser')])
prop('C13', 'Separators only separate, and digit runs are numbers',
     'Dot, dash and underscore only separate: they are interchangeable and leading, trailing or repeated ones add no part. A digit run is compared as a number: leading zeros do not matter and the larger number is the later version.',
     'inputs', 'all arrangements of runs and separators (to a stated length); all digit runs',
     'Tests sample a few separators and small numbers.',
     [CP], [('splitting at separators', CP + ' conda_parser'), ('number conversion', CP)])
prop('C14', 'An operator specification accepts "version operator operand"',
     'A specification made of an operator and an operand accepts exactly the versions for which "version operator operand" holds: the version matched is on the left, the operand on the right. '
     '"=X" and "X.*" accept the versions starting with X, "!=X.*" exactly the others, and a bare X the versions equal to X.',
     'inputs', 'all operands and versions, every operator',
     'Tests match literal specifications against one version; the side on which the version stands shows only for asymmetric operators and unequal versions.',
     [MA, V, CO], [('operator extraction', MA + ' create_match_enum_from_operator_str'), ('matching', MA + ' MatchOperator'), ('comparison', V + ' compare_to_version')])
prop('C15', 'Every specification text is classified by its form alone, or rejected',
     'A text starting with "^" and ending with "$" is a regular expression (only one of both is an error); one starting with an operator is an operator specification and must consist of a known operator '
     'and a non-blank operand; "*" accepts everything; stars inside make a glob, trailing stars a prefix; a text with "@" accepts only that text; any other text is an exact version.',
     'inputs', 'all specification texts', 'Tests parse a few dozen literals.',
     [MA], [('classification chain', MA + ' get_matcher')])
prop('C16', 'Only bare versions, texts with "@" and "==" are exact',
     'A specification reports itself exact exactly when it is a bare version, a text containing "@", or an "==" comparison; only then does it answer an exact value, which is its own text. Compound specifications are never exact.',
     'inputs', 'all specification texts', 'Tests check five literals.',
     [MA, ST], [('exactness flag', MA + ' get_matcher'), ('exact value', ST + ' Spec::exact_value')])
prop('C17', 'Globs and regular expressions match the whole version text',
     'A regular-expression specification accepts exactly the versions whose text the expression matches, and a glob exactly those whose whole text is the glob\'s with each star standing for any text; every other character of a '
     'version-like glob stands for itself.',
     'inputs', 'all globs over version characters; all versions', 'Tests match a few globs against one version.',
     [MA], [('translation of globs', MA + ' get_matcher'), ('matching on the text', MA + ' MatchRegex')])
prop('C18', 'A compound specification accepts what all, or any, of its members accept',
     'An "and" tree accepts a version exactly when every member accepts it, an "or" tree when at least one does, nested to any depth; a wrapper around a single specification accepts what that specification accepts. '
     'Matching a text is matching the version read from it.',
     'inputs', 'all trees (any number of members, any nesting) and versions', 'Tests evaluate a few literal trees of two or three members.',
     [ST], [('evaluation of trees', ST + ' ConstraintTree::test_match_version')])
prop('C19', 'Specification trees are equal exactly when structurally equal',
     'Two specification trees are equal exactly when they have the same combinator and the same number of members, equal pairwise in order; a single specification equals another exactly when their texts are the same, and never equals a tree. A copy equals its original.',
     'inputs', 'all pairs of trees', 'Tests compare a parsed tree with a few literals and never assert an inequality.',
     [ST], [('equality', ST + ' PartialEq for ConstraintTree/VersionSpecOrConstraintTree/VersionSpec')])
prop('C20', 'Compound texts with unbalanced or missing pieces are rejected',
     'Reading a compound specification succeeds only if its parentheses balance and every "," and "|" stands between two operands; any other arrangement, and any malformed member, is an error, never a panic and never a tree that drops a member.',
     'inputs', 'all arrangements of specifications, commas, bars and parentheses (to a stated length)', 'Tests have a handful of malformed literals.',
     [ST], [('token loop and operator stack', ST + ' _treeify'), ('reduction', ST + ' _apply_ops')])
prop('C21', 'Writing a tree out keeps its members, order and grouping',
     'Writing a tree as text joins its members\' texts in order with "," or "|" according to the tree, puts a nested tree in parentheses, and a member-less tree is an error. Nothing else is added or lost.',
     'inputs', 'all trees (to a stated width and depth) with arbitrary member texts', 'Tests write out a few literal trees.',
     [ST], [('joining', ST + ' ConstraintTree::combine')])
prop('C22', 'Operator signs and names convert both ways without confusion',
     'Every operator is recovered from its own sign and its own name, surrounding blanks (and, for names, letter case) not mattering, and every other text is rejected. Conversion from an ordering and back agrees.',
     'inputs', 'all operators; all texts', 'Tests check each literal sign and name; that every other text is rejected quantifies over all texts.',
     [CO], [('sign and name tables', CO)])
prop('C23', 'Inverting and flipping an operator mean complement and mirror image',
     'The inverted operator accepts exactly the orderings the operator does not, the flipped one exactly the mirrored orderings, and doing either twice gives the operator back; '
     'the by-value and by-reference forms agree.',
     'inputs', 'all operators and all outcomes of a comparison', 'Tests list the expected operator per operator, not what it means against the comparison.',
     [CO, V], [('invert, flip, opposite', CO), ('meaning of operators', V + ' compare_to_version')])
prop('C24', 'Answers depend only on the arguments: no hidden state, clock or I/O',
     'Every operation is a function of its arguments: no mutable global state, environment, clock, randomness, hash-iteration order, thread or process is read or written, and the only input or output is reading the repodata file named by the caller (debug-printing a repodata table, whose entries come in hash order, aside). '
     'No operation of the library changes a version or specification it is given.',
     'programs histories', 'every call path from every public entry point, whatever the calls before', 'Tests run each function once in a fresh process; dependence on history or environment shows only across runs.',
     [V, MA, ST, RE, PY], [('module structure without globals other than compiled patterns', LI)], tech='effect analysis over the resolved call graph of the compiler\'s MIR')
prop('C25', 'Versions and specifications can be shared between threads',
     'Versions, version parts, operators, specifications and specification trees can be sent to and shared between threads, and can be copied; no access that only reads gives out a way to change them.',
     'programs schedules', 'all programs using the public types', 'Tests are single-threaded; the guarantee is about programs not written yet.',
     [V, VP, CO, ST, MA], [('plain owned data, no interior mutability', V + ' Version')], tech='type-level witnesses and type-structure query')
prop('C26', 'Displaying and debug-printing always terminate and never panic',
     'Displaying or debug-printing any version, part, operator, specification, tree or error terminates without panicking, and a debug-printed specification shows its text, a compound one its whole text.',
     'inputs', 'all values, empty and single-member trees included', 'Tests print two or three values.',
     [V, VP, ST, ER], [('formatting', ST + ' fmt::Debug'), ('formatting', V + ' fmt::Display/Debug')])
prop('C27', 'Repodata is read completely or refused',
     'Reading repodata answers the file\'s content only when the file is readable and well formed with every required field present and every version text valid; any failure is an error, never a panic, a default or a dropped record.',
     'inputs fault_sequences', 'all files, all failures to read one', 'Tests read one good file.',
     [RE], [('reading', RE + ' read_repodata'), ('deserialisation of records', RE)])
prop('C28', 'Python comparison operators mean what the library\'s comparison says',
     'Each of the six Python comparison operators on two versions answers exactly what the library\'s comparison of the same versions in the same order says; Python\'s exactly opposite operators always give opposite answers.',
     'inputs', 'all pairs of versions, all six operators', 'The Python binding is not built by the test run.',
     [PY], [('rich comparison', PY + ' __richcmp__')])
prop('C29', 'The Python binding turns failures into exceptions and keeps the text',
     'From Python, a malformed version text raises an exception and never aborts; str() of a version object is the text it was made from and repr() shows it; the Python entry points otherwise answer what the library answers.',
     'inputs', 'all texts', 'The Python binding is not built by the test run.',
     [PY], [('construction and conversion', PY)])
prop('C30', '"," binds tighter than "|" and members keep their order',
     'In a compound specification "," binds tighter than "|", parentheses override, neighbouring members under the same operator form one group, and the members appear in the order written; every member of the text is in the tree exactly once.',
     'inputs', 'all well-formed arrangements of members, operators and parentheses (to a stated length)', 'Tests parse a few literal compounds.',
     [ST], [('token loop and operator stack', ST + ' _treeify'), ('reduction', ST + ' _apply_ops')])
prop('C31', 'Version comparison is transitive',
     'If one version is less than a second and the second less than a third, the first is less than the third.',
     'inputs', 'all triples of versions', 'Tests compare pairs only.', [V], [('pairwise walk with padding', V + ' compare_iter')],
     na='does not hold on the pinned tree by design: padding with the neutral value of the other side\'s kind makes the empty version equal to both a zero number and an empty text while these differ; deciding a weaker form needs a case analysis '
        'over unbounded triples that no rule here states without excluding exactly those cases')
prop('C32', 'Reading a written-out tree gives back an equivalent tree',
     'Writing a parsed compound specification out and reading the text again gives a tree that accepts the same versions.',
     'inputs', 'all compound specification texts', 'Tests check a few literals.', [ST], [('writing', ST + ' combine'), ('reading', ST + ' _treeify')],
     na='round-trip equality of two programs over unbounded trees and arbitrary member texts; members containing "," inside "^...$" patterns do not survive. The clauses with a local cause are decided as C20, C21 and C30')
prop('C33', 'Dependency resolution answers a consistent set',
     'The resolver answers only sets of packages whose constraints hold together.',
     'inputs', 'all repodata', 'There are no tests.', ['core/src/resolve', 'core/src/graph'], [('not compiled', LI)],
     na='the resolver and graph modules are not compiled into the library at this commit (no mod declaration reaches them), so there is no program to decide this for')
prop('C34', 'Reading and matching take time linear in the text',
     'Reading a version or specification and matching take time proportional to the sizes of their arguments.',
     'inputs', 'all texts', 'Tests do not measure time.', [CP, MA], [('regular expressions without backtracking', MA)],
     na='a statement about run time; the loop and regular-expression costs depend on library internals that no rule here bounds')
