"""Property table: writes properties.jsonl and MANIFEST.json.  Run: python3-vt tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'algebraixlib/'
MO = A + 'mathobjects/'
AL = A + 'algebras/'
IE = A + 'import_export/'
TECH = 'symbolic execution of the package source with z3 deciding every branch and assertion'
NOTE = ('Bounded: sizes and nesting are fixed per case (see BOUNDS in the harness and in the evidence), values and '
        'multiplicities are unbounded symbolic integers or opaque strings; every feasible path is explored and every '
        'assertion is decided by z3 for all values on the path. Trusts z3, the engine in symx/, the reference semantics '
        'in symx/model.py and harness/ops.py, CPython containers; hash() is abstracted (decided separately by C01); '
        'counterexamples are replayed on the project interpreter. ')


def P(id, title, statement, over, text, why, files, mech, observe, state=(), note='', built=True):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, state=state, note=note, built=built)


PROPS = [
    P('C01', 'Structural equality is an equivalence and hashing agrees with it',
      'Two data objects (atoms, couplets, sets, multisets, at any nesting) compare equal exactly when they have the same kind and '
      'the same structure, where set elements and multiset entries are compared regardless of the order or way in which they were '
      'supplied and atoms additionally need the same value type. Inequality is the exact negation of equality, and equal objects '
      'always have equal hashes, so they are found again in sets, dictionaries and other containers.',
      ['inputs'], 'all atom values, all equality patterns between them, all construction orders and duplications, within the stated sizes',
      'Tests compare a few dozen fixed objects; equality and hash must agree for every pair of objects and every order of construction.',
      [MO + 'atom.py', MO + 'couplet.py', MO + 'set.py', MO + 'multiset.py', A + 'util/miscellaneous.py'],
      [('__eq__/__ne__/__hash__ of the four kinds', MO + '*.py'), ('order-independent hash sum', A + 'util/miscellaneous.py:get_hash')],
      ['==', '!=', 'hash()', 'membership in containers']),
    P('C02', 'Ordering is a strict order and printed forms are canonical',
      'For any two data objects over values of totally ordered types exactly one of less, greater and equal holds, and the four comparison operators agree '
      'with one another and with equality; objects of different kinds are ordered by kind, and atoms of the same value type by their values, so that '
      'sorting such atoms yields ascending values. Equal objects print identically (both printed forms) no matter in which order their elements were '
      'supplied, different objects have different code forms, and evaluating the code form gives back an equal object.',
      ['inputs'], 'all values of atoms of totally ordered types, alone and mixed, all insertion orders, within the stated sizes',
      'Tests order a handful of fixed pairs and print objects built in one order.',
      [MO + 'mathobject.py', MO + 'atom.py', MO + 'couplet.py', MO + 'set.py', MO + 'multiset.py'],
      [('__lt__ with total_ordering', MO + 'atom.py'), ('cross-kind order', MO + 'mathobject.py:_less_than'), ('sorted printing', MO + 'set.py:__repr__')],
      ['<', '<=', '>', '>=', 'sorted()', 'repr()', 'str()']),
    P('C03', 'Set algebra computes the mathematical set operations',
      'Union, intersection, difference, subset/superset tests, substriction and superstriction (first operand if it is a subset / superset of '
      'the second, otherwise undefined), the big union and intersection of a set of sets, power set, power-up, multify, restriction by a selector, '
      'and the single/some element pickers return exactly what their mathematical definitions say. The operands are never changed, and '
      'turning argument checking off does not change any result for valid operands.',
      ['inputs'], 'all element values and every overlap between operands, sets of atoms, couplets, relations, nested sets and mixed kinds',
      'Tests use a few fixed sets; the identities must hold for every pattern of overlap.',
      [AL + 'sets.py', MO + 'set.py'], [('set operations', AL + 'sets.py:Algebra'), ('frozenset storage', MO + 'set.py')],
      ['algebras.sets functions', 'Set methods']),
    P('C04', 'Multiset algebra computes multiplicities exactly',
      'Union takes the larger, intersection the smaller, addition the sum and difference the truncated difference of the multiplicities of '
      'each element, and elements whose result would be zero are absent; subset, superset, substriction and superstriction compare multiplicities '
      'element by element. Demultify yields the distinct elements; multiplicity lookup, membership, cardinality, iteration and construction from '
      'a list or a count mapping agree with the multiplicities; operands are never changed and argument checking does not alter results.',
      ['inputs'], 'all element values and every positive multiplicity (unbounded), every overlap between operands',
      'Tests use multiplicities 1 to 5 on a few fixed multisets.',
      [AL + 'multisets.py', MO + 'multiset.py'], [('Counter arithmetic', AL + 'multisets.py:Algebra'), ('storage', MO + 'multiset.py')],
      ['algebras.multisets functions', 'Multiset methods']),
    P('C05', 'Couplet and relation algebra follow their definitions',
      'Transposing a couplet swaps its two parts and composing two couplets yields the second one\'s left with the first one\'s right when the first '
      'one\'s left equals the second one\'s right, and is undefined otherwise; for relations both are applied to all members or pairs of members and undefined '
      'results are dropped. Functional union (right-functional union) is the union when that is functional (right-functional) and undefined otherwise. '
      'Transposition is an involution, composition is associative, and operands are never changed.',
      ['inputs'], 'all couplet values and coincidences between them, nested lefts and rights, argument checking on and off',
      'Tests compose a few fixed relations; the laws hold only if every coincidence pattern is right.',
      [AL + 'couplets.py', AL + 'relations.py', A + 'extension.py'],
      [('couplet operations', AL + 'couplets.py:Algebra'), ('relation operations', AL + 'relations.py:Algebra'), ('extension', A + 'extension.py')],
      ['algebras.couplets functions', 'algebras.relations functions']),
    P('C06', 'Lookups, renames and helper constructions on relations and clans are exact',
      'Left/right value sets, the rights for a left, the unique right or left for a value (undefined when there is none or several), indexing and calling a '
      'relation, indexing a clan or multiset, definedness at a left and projection return exactly the couplets and values that match. Filling lefts, renaming and '
      'swapping change exactly the lefts that the given mapping names and keep every other couplet; functional addition adds one couplet and is undefined '
      'if its left is already mapped. Relations, clans and multiclans built from dictionaries, value lists or as diagonals contain exactly the requested couplets.',
      ['inputs'], 'all couplet values, lookup keys present, absent or ambiguous, renames of present and absent lefts',
      'Tests look up a few fixed keys in fixed relations; ambiguity and overlap patterns are unbounded.',
      [AL + 'relations.py', AL + 'clans.py', AL + 'multiclans.py', MO + 'set.py', MO + 'multiset.py'],
      [('lookup', AL + 'relations.py:get_right'), ('rename', AL + 'relations.py:rename'), ('call and index', MO + 'set.py:_call')],
      ['relations/clans/multiclans helper functions', 'relation(x)', 'relation[x]', 'clan[x]', 'multiset[x]']),
    P('C07', 'Property predicates report the true mathematical property',
      'Functional, right-functional, bijective, reflexive, symmetric, transitive, equivalence, regular and right-regular are reported true exactly when '
      'the relation, clan or multiclan has the property (a clan or multiclan has a relation property when all its relations have it; it is regular when all its '
      'relations are functional with identical left sets), and undefined where they do not apply. The algebra-specific predicates and the '
      'general ones agree, whatever is already remembered about the object or its parts.',
      ['inputs', 'histories'], 'all couplet values, empty and non-empty members, nested sets of clans, and every sound combination of already-known properties',
      'Tests query a few objects, in one order, from a fresh state.',
      [AL + 'properties.py', AL + 'relations.py', AL + 'clans.py', AL + 'multiclans.py', AL + 'couplets.py'],
      [('general predicates', AL + 'properties.py'), ('clan predicates', AL + 'clans.py'), ('multiclan predicates', AL + 'multiclans.py')],
      ['is_functional', 'is_right_functional', 'is_bijective', 'is_reflexive', 'is_symmetric', 'is_transitive', 'is_equivalence_relation', 'is_regular', 'is_right_regular']),
    P('C08', 'Remembered properties of set and relation results are true',
      'After any set, couplet or relation operation or construction, every property that the result or the operands remember about themselves (being a relation, clan or multiclan, '
      'absolute, functional, right-functional, reflexive, symmetric, transitive, regular, right-regular) is true of their actual contents, whatever was remembered '
      'about the operands beforehand. Nothing is ever remembered as false or not applicable when it holds.',
      ['inputs', 'histories'], 'all values and every sound combination of already-remembered properties of the operands',
      'Tests check remembered properties on fixed results from fresh operands; a wrong inference shows only for particular values and particular prior queries.',
      [AL + 'sets.py', AL + 'relations.py', AL + 'couplets.py', MO + 'mathobject.py'],
      [('property inference in the operations', AL + 'sets.py:Algebra'), ('relation inference', AL + 'relations.py:Algebra')],
      ['cached_* attributes of results and operands'], [('flag record', 'remembered property states per object', MO + '_flags.py')]),
    P('C09', 'Remembered properties of clan results are true',
      'After any clan operation, projection, definedness filter or clan construction, every property that the result, its relations or the operands remember about '
      'themselves is true of their actual contents, whatever was remembered about the operands beforehand.',
      ['inputs', 'histories'], 'all values and every sound combination of already-remembered properties of the operands',
      'Tests check remembered properties on fixed clans from fresh operands.',
      [AL + 'clans.py', A + 'extension.py', MO + 'mathobject.py'], [('clan inference', AL + 'clans.py:Algebra')],
      ['cached_* attributes of results, their relations and operands'], [('flag record', 'remembered property states per object', MO + '_flags.py')]),
    P('C10', 'Remembered properties of multiset and multiclan results are true',
      'After any multiset or multiclan operation, conversion between sets and multisets, partition or multiclan construction, every property that the result, its elements or the operands '
      'remember about themselves is true of their actual contents, whatever was remembered about the operands beforehand.',
      ['inputs', 'histories'], 'all values, all positive multiplicities and every sound combination of already-remembered properties of the operands',
      'Tests check remembered properties on fixed multisets from fresh operands.',
      [AL + 'multisets.py', AL + 'multiclans.py', A + 'partition.py', MO + 'multiset.py'],
      [('multiset inference', AL + 'multisets.py:Algebra'), ('multiclan inference', AL + 'multiclans.py:Algebra'), ('partition blocks', A + 'partition.py')],
      ['cached_* attributes of results, their elements and operands'], [('flag record', 'remembered property states per object', MO + '_flags.py')]),
    P('C11', 'Answers do not depend on what was asked or computed before',
      'Any sequence of queries and operations on shared objects leaves every later answer the same as it would be on fresh copies: values, membership in the '
      'algebras, property predicates, hash, equality, lookups and printed form of an object never change during its lifetime. In particular a query never fails '
      'because of an earlier query.',
      ['histories', 'inputs'], 'all histories of up to the stated number of queries and operations, all values of the shared objects',
      'Tests run one query per object; the objects remember results of earlier queries, so order matters.',
      [MO + 'mathobject.py', MO + 'set.py', MO + 'multiset.py', AL + 'properties.py'],
      [('write-once flags', MO + '_flags.py:_setter_helper'), ('lookup redirection', MO + 'set.py:_getitem')],
      ['all queries'], [('flag record', 'remembered property states', MO + '_flags.py'), ('redirect', 'lookup strategy chosen at first use', MO + 'set.py')]),
    P('C12', 'Clan algebra extends the relation operations pairwise',
      'Transpose, compose, cross-union, cross-functional and cross-right-functional union, cross-intersection, substriction and superstriction of clans return exactly the set of defined results of the '
      'corresponding relation operation over all pairs of member relations. The left-hand-side variant of the functional union additionally keeps exactly those left relations that '
      'combine with no right relation. Operands are never changed and argument checking does not alter results.',
      ['inputs'], 'all values of clans with the stated numbers of relations and couplets',
      'Tests use a few fixed clans; results depend on every coincidence between couplets of different relations.',
      [AL + 'clans.py', A + 'extension.py'], [('pairwise extension', A + 'extension.py:binary_extend'), ('clan operations', AL + 'clans.py:Algebra')],
      ['algebras.clans functions']),
    P('C13', 'Multiclan algebra extends relation operations and multiplies multiplicities',
      'For multiclans, transpose and composition, the cross unions and cross-intersection apply the relation operation to all pairs of member relations, and the multiplicity of each result is the sum over the pairs '
      'producing it of the products of their multiplicities (for transpose: the sum of the multiplicities of its sources). Substriction and superstriction keep exactly the relations of the first operand '
      'contained in (containing) some relation of the second, with their multiplicity from the first operand. Operands are never changed and argument checking does not alter results.',
      ['inputs'], 'all values and all positive multiplicities of multiclans with the stated sizes',
      'Tests use a few fixed multiclans with small multiplicities.',
      [AL + 'multiclans.py', A + 'extension.py'], [('pairwise extension with counts', A + 'extension.py:binary_multi_extend'), ('multiclan operations', AL + 'multiclans.py:Algebra')],
      ['algebras.multiclans functions']),
    P('C14', 'Undefined arguments give undefined results, or raise exactly as configured',
      'Every algebra operation or predicate given an undefined argument, or an argument outside its domain, returns the undefined value and never a truth value, an empty object or an exception of another kind (membership tests answer false, and the rights for an undefined left are the empty set). '
      'When raising is configured, the undefined-result exception is raised instead: from level 1 for arguments of the wrong kind and failed unique lookups, from level 2 also when undefined was passed in or is an allowed outcome; at level 0 nothing raises. '
      'Defined results are unaffected by the level, except that level 2 also reports undefined combinations inside an extended operation.',
      ['inputs', 'configurations'], 'all functions and argument positions, every kind of wrong argument, all levels as a symbolic integer, all values',
      'Tests call each function with one or two undefined arguments at the default level.',
      [A + 'undef.py', AL + 'sets.py', AL + 'relations.py', AL + 'clans.py', AL + 'multisets.py', AL + 'multiclans.py', AL + 'couplets.py', A + 'extension.py'],
      [('undefined value', A + 'undef.py:Undef'), ('raise level', A + 'undef.py:make_or_raise_undef')],
      ['return values and exceptions of algebra functions'], [('raise level', 'global level of raising', A + 'undef.py:RaiseOnUndef')]),
    P('C15', 'Extending an operation applies it to every combination, dropping undefined',
      'Extending any unary or binary operation to sets yields exactly the set of its defined results over all elements or pairs of elements; extending to multisets adds up the multiplicities '
      '(products of multiplicities for pairs) of all combinations giving the same result, a set counting each element once. This holds for every operation, including partial ones, '
      'and the result does not depend on argument checking.',
      ['inputs', 'programs'], 'every operation (an uninterpreted partial function), all element values and multiplicities',
      'Tests extend two or three concrete operations.',
      [A + 'extension.py'], [('extension loops', A + 'extension.py')], ['binary_extend', 'unary_extend', 'binary_multi_extend', 'unary_multi_extend']),
    P('C16', 'Partitioning splits by the class function without loss or overlap',
      'Partitioning a set or multiset by any class function yields non-empty, pairwise disjoint blocks whose union (with multiplicities for multisets) is the original, and two elements share a block exactly when the '
      'class function gives them equal values. The labelled form maps each class value, as a function, to exactly its block.',
      ['inputs', 'programs'], 'every class function (an uninterpreted function), all element values and multiplicities',
      'Tests partition by three concrete functions.',
      [A + 'partition.py'], [('grouping', A + 'partition.py:_create_partition_dict_from_set')], ['partition', 'make_labeled_partition']),
    P('C17', 'Ordered slices of multiclans return the requested rows with their multiplicities',
      'Slicing a multiclan with an offset and a limit returns, of the sequence in which each relation is repeated as often as its multiplicity, exactly the rows at positions offset up to (not including) offset plus limit, '
      'as (relation, multiplicity) pairs or as a multiclan. The ordered variants first sort the relations by the given less-than function. Plain integers and atoms are accepted '
      'alike for offset and limit, an infinite limit returns all remaining rows, and an undefined argument gives an undefined result.',
      ['inputs'], 'all multiplicities, offsets and limits (unbounded non-negative integers), all less-than orders on the members',
      'Tests slice two fixed multiclans at a few offsets.',
      [AL + 'multiclans.py'], [('slicing', AL + 'multiclans.py:_to_listgen_slice'), ('sorting', AL + 'multiclans.py:order_slice_to_listgen')],
      ['multiclan_to_listgen', 'order_slice_to_listgen', 'order_slice']),
    P('C18', 'Structural type algebra and membership tests are sound and consistent',
      'The subset relation on structures is reflexive and transitive, two structures are equal (in either order, with equal hashes) exactly when each is a subset of the other, and unions contain their parts. An object is reported a member of an algebra (or an absolute member) exactly when its '
      'contents have that form, independent of the order of its elements and of what is already remembered about it. Every object\'s ground set contains the ground sets of its elements and '
      'lies within the ground set of each algebra the object belongs to.',
      ['inputs', 'histories'], 'all structures up to the stated depth, all objects of the stated shapes with every sound prior knowledge',
      'Tests compare a few fixed structures and objects.',
      [A + 'structure.py', MO + 'set.py', MO + 'multiset.py', AL + 'relations.py', AL + 'clans.py', AL + 'multiclans.py', AL + 'sets.py', AL + 'couplets.py', AL + 'multisets.py'],
      [('structures', A + 'structure.py'), ('is_member', AL + '*.py')], ['is_subset', 'is_same', 'is_member', 'is_absolute_member', 'get_ground_set']),
    P('C19', 'Native JSON form round-trips every supported value',
      'Encoding any data object to the library\'s JSON form and decoding it gives back an equal object with the same value types, including nested objects, multiplicities and the supported '
      'built-in container values. Distinct objects have distinct encodings.',
      ['inputs'], 'all objects of the stated shapes with all values', 'Tests round-trip a few fixed objects.',
      [IE + 'mojson.py'], [('encode', IE + 'mojson.py:encode'), ('decode', IE + 'mojson.py:object_hook_f')], ['encode', 'decode', 'ExportJson', 'ImportJson']),
    P('C20', 'CSV import and export preserve rows',
      'Importing a table yields one relation per row holding exactly the non-empty fields under their column names, converted by the given column types, with duplicate rows merged or counted as requested, '
      'leading rows skipped, and the index column numbering the rows from zero. Exporting an absolute clan or multiclan writes each relation as one row (as many times as its multiplicity) with '
      'the requested columns, and importing the exported rows gives the same data back.',
      ['inputs'], 'all cell values and patterns of missing and repeated cells and rows for tables of the stated size',
      'Tests import fixed files.',
      [IE + 'csv.py', IE + '_util.py'], [('row conversion', IE + 'csv.py:import_csv'), ('row writing', IE + 'csv.py:export_csv')], ['import_csv', 'export_csv']),
    P('C21', 'JSON and XML import keep every node and value',
      'Importing a JSON document yields a couplet for every key with exactly its converted value, a nested relation for every object and one couplet per element for a list. Importing an XML document yields a couplet per element named '
      'by its tag whose right is its text when it has only text and otherwise the relation of its children, attributes and text, converting numeric text only when asked.',
      ['inputs'], 'all tag and key coincidences and values for documents of the stated shapes', 'Tests import fixed documents.',
      [IE + 'json.py', IE + 'xml.py', IE + '_util.py'], [('node conversion', IE + 'json.py:import_json'), ('node conversion', IE + 'xml.py:import_xml')], ['import_json', 'import_xml']),
    P('C22', 'RDF triple matching and joins return exactly the solutions',
      'Matching a graph of triples against a pattern returns exactly the triples that agree with all given constant values, projected to the requested variables; joining solutions returns exactly the '
      'consistent combinations. Triple and graph recognition accepts exactly the relations with the three parts subject, predicate and object, and graphs of such triples.',
      ['inputs'], 'all triple values and coincidences for graphs of the stated size and all patterns', 'Tests query small fixed graphs.',
      [A + 'util/rdf.py', AL + 'clans.py'], [('matching', A + 'util/rdf.py:match_and_project'), ('join', A + 'util/rdf.py:join')],
      ['triple_match', 'pattern_match', 'match_and_project', 'join', 'is_triple', 'is_graph', 'make_triple']),
    P('C23', 'Remembered property states are independent and written once',
      'Recording one remembered property of an object changes only that property and those it directly implies: no other property\'s state is disturbed, and reading back returns what was recorded. A recorded state can be '
      'recorded again with the same value but contradicting it is refused, and copying the record between objects preserves all states.',
      ['inputs', 'histories'], 'all prior states of all properties and all values recorded', 'Tests set a few flags.',
      [MO + '_flags.py', MO + 'mathobject.py', A + 'cache_status.py'], [('two-bit fields', MO + '_flags.py'), ('implications', MO + 'mathobject.py:cache_relation')],
      ['cached_* and cache_* of data objects', 'flag record'], [('flag record', 'two bits per property', MO + '_flags.py')]),
    P('C24', 'Constructors build exactly the requested immutable value',
      'Constructing a couplet, set or multiset from any mix of raw values, data objects, single values or iterables holds exactly the supplied elements, wrapping raw values as atoms and never re-wrapping data objects, with a string treated as one value and duplicates merged or counted. '
      'Later changes to the supplied containers do not affect the object, undefined arguments are skipped or propagated by the making functions, and copying returns an equal object.',
      ['inputs'], 'all values and duplications, all argument forms', 'Tests construct fixed objects.',
      [MO + 'atom.py', MO + 'couplet.py', MO + 'set.py', MO + 'multiset.py'], [('auto conversion', MO + 'atom.py:auto_convert'), ('constructors', MO + '*.py')],
      ['Atom', 'Couplet', 'Set', 'Multiset', 'make_couplet', 'make_set']),
    P('C25', 'RDF graph import and table export keep every statement and value',
      'Importing an RDF graph from a path or file object gives exactly one subject/predicate/object triple per distinct statement, with IRIs kept, each blank node turned into an IRI of its own, and literals as Python values of '
      'their type. Exporting a table as CSV or JSON writes well-formed output whose header lists the requested columns in sorted order and whose rows hold exactly the defined values of each relation, whatever characters they '
      'contain and whichever columns are undefined, including tables without rows.',
      ['inputs'], 'all statements and cells of the stated number with all values and coincidences', 'Tests export two fixed tables and skip the import on this Python version.',
      [IE + 'rdf.py', A + 'util/rdf.py'], [('import', IE + 'rdf.py:import_graph'), ('export', IE + 'rdf.py:export_table')], ['import_graph', 'export_table']),
    P('C26', 'LaTeX, HTML and text renderings show every element',
      'The LaTeX form of an object can be read back to the same object: it lists every element of a set or multiset once, in ascending order and with its multiplicity, keeps left and right of couplets apart, and does not depend on '
      'the order of construction. The short form differs only by cutting long atom texts and by replacing the elements beyond the configured number, if more than one, by the count of those left out. HTML pages show each title, '
      'description and object exactly, with every special character escaped, and the readable text listing shows every atom as often as it occurs.',
      ['inputs'], 'all objects of the stated shapes with all values, value orders and construction orders', 'Tests render four fixed objects.',
      [A + 'util/latexprinter.py', A + 'util/html.py', A + 'util/mathobjectprinter.py'],
      [('LaTeX', A + 'util/latexprinter.py'), ('HTML', A + 'util/html.py'), ('listing', A + 'util/mathobjectprinter.py:mo_to_str')],
      ['math_object_to_latex', 'math_object_as_html', 'create_simple_web_page', 'mo_to_str']),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=None)
            if p['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, (p['id'], 'sentences')
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, 'harness', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                               technique=TECH, level='model_checking', level_note=NOTE + p['note']))
        else:
            na.append(dict(property=p['id'], reason='not built yet'))
    m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na,
             notes='Solver-based symbolic execution of the real Python source; see DESIGN.md. No hooks in /repo are needed.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
