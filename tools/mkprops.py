#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs: d['anchors']['observe_at'] = obs
    assert len(title) <= 80, (id, len(title))
    P.append(d)

BS = 'src/sets/bitset.c'
p('B01', 'Immutable bit sets obey set algebra, complements included',
  'An immutable bit set (plain or complemented) denotes a set of machine-sized integers, and every constructor, operator (and, or, xor, difference, complement, shift), comparison, membership test, truth test, length, iteration, slice, hash, integer conversion and pickle round trip gives the result that mathematical sets of integers give, whichever operand forms (bit sets of any flavour, integers, lists, tuples, dicts, other iterables, ranges) are combined. '
  'Equal sets hash equal however they were built, and operations that are undefined for infinite sets are refused with an exception. Operands are never modified.',
  ['inputs', 'programs'], 'all sets of machine integers up to their complement, all operand forms, all compositions of operators, elements anywhere in the signed word range and across word boundaries',
  'The unit tests sample a few dozen sets near zero; the algebra quantifies over all sets, all representations, complements and element magnitudes.',
  [BS, 'src/sets/sets.c', 'guppy/sets/__init__.py', 'guppy/sets/setsc.py'] if False else [BS, 'src/sets/sets.c', 'guppy/sets/__init__.py'],
  [('immbitset_op word merge', BS), ('complement objects', BS), ('anybitset_convert operand forms', BS), ('immbitset_richcompare / immbitset_lt', BS), ('immbitset_lshift', BS), ('immbitrange_new', BS)],
  obs=['guppy.sets.immbitset', 'guppy.sets.immbitrange', 'guppy.sets.setsc.ImmBitSet', 'guppy.sets.setsc.CplBitSet'])
p('B02', 'Mutable bit sets follow every history and never alias other sets',
  'After any sequence of additions, removals, pops, test-and-set operations, clears, in-place operators, copies and conversions, a mutable bit set contains exactly the integers that sequence implies, and every return value and exception is the one implied by the contents at that moment. '
  'Immutable sets, copies and iterators taken from it earlier keep the contents they had when they were taken, however either side is changed later and however large or fragmented the set has become.',
  ['histories'], 'all finite sequences of mutating operations, snapshots and reads over several sets that were derived from each other',
  'Unit tests run short fixed histories on one object; copy-on-write sharing and segment splitting depend on the order and number of operations.',
  [BS], [('copy-on-write getrange_mut', BS), ('segment splitting', BS), ('mutbitset_iop_* in-place operators', BS), ('mutbitset_as_immbitset_and_del', BS)],
  state=[('cur_field/root', 'segmented storage shared between mutable and immutable sets', BS), ('cpl', 'complement flag', BS)],
  obs=['guppy.sets.mutbitset', 'guppy.sets.setsc.MutBitSet'])
p('B03', 'Node sets are identity sets under every history',
  'A node set contains objects by identity: after any sequence of additions, removals, pops, test-and-set operations, clears, in-place operators, copies and conversions a mutable node set contains exactly the objects implied, each once, and immutable node sets obey set algebra (union, intersection, difference, symmetric difference, comparisons, membership, length, hash) with any iterable operand. '
  'Objects that compare equal but are distinct remain distinct, earlier copies are unaffected by later changes, and every member is kept alive exactly as long as it is a member.',
  ['histories', 'inputs'], 'all histories over families of node sets derived from each other, with arbitrary objects (including equal-but-distinct and unhashable ones) and all operand forms',
  'Tests sample a few integers-like objects; identity semantics, reference ownership and derived-copy independence range over histories.',
  ['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'guppy/sets/__init__.py'],
  [('nodeset_bitno_from_object address mapping', 'src/sets/nodeset.c'), ('nodeset_ior/iand/isub/ixor', 'src/sets/nodeset.c'), ('immnodeset_op merge', 'src/sets/immnodeset.c')],
  obs=['guppy.sets.mutnodeset', 'guppy.sets.immnodeset'])
p('B04', 'Node graphs behave as sets of edges or as mappings under every history',
  'A node graph holds exactly the set of edges implied by the sequence of additions, updates, replacements, inversions, restrictions, copies and clears applied to it; domain, range, indexing, membership, relational image, coverage and iteration agree with that edge set at every point, however additions and queries interleave. '
  'Every object referred to by an edge is kept alive exactly as long as the edge exists.',
  ['histories'], 'all finite interleavings of edge insertions, queries and whole-graph operations',
  'The graph is lazily sorted on query; tests only query after one insertion phase, and never check reference ownership.',
  ['src/heapy/nodegraph.c'], [('lazy sort and duplicate removal', 'src/heapy/nodegraph.c'), ('NyNodeGraph_Region binary search', 'src/heapy/nodegraph.c'), ('nodegraph_ass_subscript', 'src/heapy/nodegraph.c')],
  obs=['guppy.heapy.heapyc.NodeGraph'])

HV = 'src/heapy/hv.c'
p('H01', 'Reachability is exact for every object graph',
  'For every object graph, start set and avoid set, the objects reported reachable are exactly those connected to a start object by a chain of references none of whose members is avoided or hidden; the relational-image and one-step exploration primitives agree with the same edge relation, and the reported edges per object equal the references it holds, as far as traversal of an object reveals them (the keys of dictionaries that have only string keys are not revealed). '
  'Exploring the graph changes neither the graph nor any reference count.',
  ['inputs', 'programs'], 'all finite object graphs over lists, tuples, dicts, sets, instances, closures, classes and other container kinds, including cyclic structures, and all start and avoid sets',
  'Tests use three or four hand-drawn graphs; the guarantee ranges over all graphs and avoid sets.',
  [HV, 'guppy/heapy/View.py', 'src/heapy/stdtypes.c'], [('hv_heap / hv_reachable traversal', HV), ('reachable_x', HV), ('hv_relimg', HV), ('hv_numedges', HV)],
  obs=['hp.iso(...).rp', 'hp.View.hv', 'hp.heap()'])
p('H02', 'Referrer and referent queries are exact under caching and heap changes',
  'The referents of a set are exactly the visible objects its members directly refer to, and the referrers of a set are exactly those objects, among the ones the analysis root leads to, that hold a direct reference to a member (references back to the root itself are not gathered). '
  'What is gathered about referrers is kept between queries: after a full garbage collection or a change of the analysis root the answer is exact for the heap as it then is, whichever queries came before; in between, an answer contains every referrer whose reference existed throughout and nothing that held no reference at any moment since.',
  ['histories'], 'all interleavings of reference creation and deletion, object creation, queries, garbage collections and root changes, over all object graphs',
  'Referrer answers come from a cache that is filled by a graph traversal and reused; tests query each object once on a static heap.',
  ['guppy/heapy/View.py', HV, 'src/heapy/nodegraph.c'], [('referrer graph cache', 'guppy/heapy/View.py'), ('hv_update_referrers', HV)],
  obs=['IdentitySet.referrers', 'IdentitySet.referents'])
p('H03', 'Dominated sets and immediate dominators match their definitions',
  'For every object graph and root, the set dominated by a set X is exactly the objects that X leads to and that the root does not lead to when X is removed; the dominated size of X is the total individual size of that set; and when several sets are considered together each gets what only it keeps alive. '
  'The immediate dominators of X are exactly those of its referrers that the root leads to without passing another referrer of X.',
  ['inputs'], 'all finite object graphs, roots and subsets',
  'Tests use one or two fixed graphs; dominators depend on every path of the graph.',
  ['guppy/heapy/View.py', HV, 'guppy/heapy/UniSet.py'], [('dominos/imdom computation', 'guppy/heapy/View.py'), ('reachable / reachable_x', HV)], obs=['IdentitySet.dominos', 'IdentitySet.domisize', 'IdentitySet.imdom'])

p('H04', 'Shortest-path listings are exactly the shortest paths',
  'For every object graph, the paths listed from a source set to a target are exactly the shortest reference chains (avoiding the avoided edges or nodes), each listed once, the announced number of paths equals the number listed, and every listed path connects source to target step by step. '
  'Indexing, slicing and paging through the listing agree with iteration, and avoiding an edge of a found path yields the shortest paths of the graph without that edge.',
  ['inputs', 'histories'], 'all finite object graphs, source and target sets, avoid sets and page positions',
  'Tests print a handful of paths on fixed structures; path multiplicity, ties and avoidance need many graphs.',
  ['guppy/heapy/Path.py', HV], [('shpgraph_algorithm and shpathstep', 'guppy/heapy/Path.py'), ('hv_shpathstep', HV), ('numpaths counting and path indexing', 'guppy/heapy/Path.py')],
  obs=['IdentitySet.shpaths', 'hp.Path'])
p('H05', 'Every reported relation between two objects is true and complete',
  'When the analysis names how one object refers to another (attribute, index, dictionary key or value, cell, frame local, function part, type slot and so on), following that name from the first object yields the second, and every direct reference that traversal sees between two objects of a supported kind gets at least one name, with all index, key and attribute names of the reference listed. '
  'Naming a relation does not leak references or change the objects.',
  ['inputs'], 'all pairs of objects over all supported container and interpreter object kinds and contents',
  'Tests check a few names per type; positions, multiplicities, key/value duality and reference counts are not covered.',
  ['src/heapy/stdtypes.c', 'src/heapy/rootstate.c', HV, 'guppy/heapy/Path.py'], [('per-type relate functions', 'src/heapy/stdtypes.c'), ('hv_relate merge by kind', HV), ('relation classes', 'guppy/heapy/Path.py')],
  obs=['hp.Path.relation', 'hp.View.hv.relate'])
p('H06', 'A heap reference point separates exactly the objects allocated after it',
  'After a reference point is taken, the set reported as new contains exactly those live visible objects that were created since, also when objects existing before died and their memory was reused, and with any number of reference points alive at once and dropped in any order. '
  'When the last reference point is gone, object deallocation works exactly as before it existed.',
  ['histories'], 'all histories of allocation, deallocation, memory reuse, and creation and destruction of reference points, for all objects except those whose memory the interpreter recycles without deallocating them (floats, integers, strings)',
  'Needs specific orders of death, address reuse and horizon lifetimes; the test takes one reference point and allocates once.',
  ['src/heapy/horizon.c', 'guppy/heapy/Use.py', 'guppy/heapy/View.py'], [('deallocation patching', 'src/heapy/horizon.c'), ('news computation', 'src/heapy/horizon.c')],
  state=[('horizon list', 'all live reference points', 'src/heapy/horizon.c')], obs=['hp.setref', 'hp.setrelheap', 'heapyc.Horizon'])
p('H07', 'The heap listing hides the analyser and only the analyser',
  'The whole-heap listing consists of exactly the objects reachable from the interpreter root minus the analyser\'s own objects: objects tagged or typed as hidden never appear in a heap listing, nor does anything reachable only through them, and every other reachable object, including those referred to only from frames of other threads or from hidden-looking but unregistered types, does appear. '
  'Creating or keeping analysis results does not change what a later listing reports about the program\'s own objects.',
  ['configurations', 'histories'], 'all mixtures of hidden types, hidden tags, hidden instances, thread frames and previously computed results',
  'Tests look at overall heap totals; hiding rules depend on tags, types, and where the only reference lives.',
  [HV, 'src/heapy/stdtypes.c', 'src/heapy/rootstate.c', 'guppy/heapy/View.py', 'guppy/heapy/Use.py'], [('hiding tag and hidden type rules', HV), ('root traversal', 'src/heapy/rootstate.c')], obs=['hp.heap()', 'HeapView.heap()'])

p('C01', 'Every classification partitions its objects exactly',
  'Partitioning any set of objects by any classifier (type, class, size, identity, module, unity, referrer kinds, dictionary owner, relation, producer, and combinations of them) puts each object in exactly one class, with two objects in the same class precisely when the classifier assigns them the same value as defined for it; no object is lost, duplicated or added, and counts and sizes of classes add up to those of the set. '
  'The value assigned does not depend on the other objects in the set, and the set is unchanged.',
  ['inputs'], 'all finite sets of objects and all classifiers and combinations thereof',
  'Tests check a few printed tables; the partition law quantifies over all sets and classifier combinations.',
  ['guppy/heapy/Classifiers.py', 'src/heapy/classifier.c', 'src/heapy/hv_cli_and.c', 'src/heapy/hv_cli_rcs.c', 'src/heapy/hv_cli_dictof.c', 'src/heapy/hv_cli_findex.c', 'src/heapy/hv_cli_prod.c', 'src/heapy/hv_cli_idset.c', 'src/heapy/hv_cli_rel.c'],
  [('partition/epartition', 'src/heapy/classifier.c'), ('per-classifier classify functions', 'src/heapy/hv_cli_*.c')], obs=['IdentitySet.by*', 'IdentitySet.partition', 'ObjectClassifier'])
p('C02', 'Selecting by a kind returns exactly the matching objects',
  'Intersecting a set of objects with a kind, whether atomic, a comparison (less, less or equal, equal and so on) or built with and, or, not and difference from other kinds, returns exactly the members of the set whose classification satisfies the kind, and membership of an object in a kind says the same. '
  'Selecting the kind of a row of a partition returns exactly that row.',
  ['inputs', 'programs'], 'all kind expressions over all classifiers, applied to all finite object sets',
  'Tests combine a few kinds by hand; the law ranges over all expressions and comparison operators.',
  ['guppy/heapy/UniSet.py', 'guppy/heapy/Classifiers.py', 'src/heapy/classifier.c'], [('select with comparison', 'src/heapy/classifier.c'), ('kind families', 'guppy/heapy/UniSet.py'), ('classifier families get_kind/c_alt/c_get_render', 'guppy/heapy/Classifiers.py')], obs=['hp.iso(...) & kind', 'obj in kind'])
p('C03', 'Kinds and identity sets form one consistent set algebra',
  'Symbolic kinds and concrete object sets combine by the laws of set algebra: the members of a union, intersection, difference, symmetric difference or complement are the Boolean combination of the members of the operands whatever mixture of forms and nesting is used, equality and containment claimed between two sets are true of every object, and equal sets hash equally. '
  'Combining sets never modifies the operands. The textual representation of a kind obtained from a type, size, module, identity, producer, relation or referrers and combinations of such, evaluated while its objects live, gives a kind of the same objects.',
  ['programs'], 'all expressions over kinds, complements, object sets and the empty set',
  'Expression simplification has a rule per pair of forms; tests enumerate some pairs but not nested expressions or witnesses.',
  ['guppy/heapy/UniSet.py'], [('family dispatch _and_/_or_/_sub_ rules', 'guppy/heapy/UniSet.py')], obs=['UniSet operators'])

PT = 'guppy/heapy/Part.py'
p('P01', 'Partition tables are complete, ordered and consistently numbered',
  'A printed partition lists the classes in descending size order (ties by label), each row showing the count, size, percentages and cumulative totals that follow from the set, and indexing or slicing a partitioned set returns exactly the objects in the rows displayed at those positions. '
  'This holds for every set, classifier and row range, including ranges far down long listings and after any earlier access pattern.',
  ['inputs', 'histories'], 'all sets, classifiers, indexes, slices and access orders',
  'Rows are produced lazily with several backends; tests look at the first page of small tables.',
  [PT, 'guppy/heapy/Classifiers.py'], [('SetPartition / IdentityPartition row caches', PT)], obs=['print(set)', 'set[i]', 'set.partition', 'set.stat'])
p('P02', 'Statistics survive a dump and load unchanged',
  'Dumping the statistics of any partitioned set to a file and loading it again gives statistics with the same totals, row labels, counts, sizes, order, header and time as the original, for all row selections and however many statistics were appended to the same file and in whatever order rows are then accessed. '
  'Loading a file that was cut off at any point returns the statistics wholly written before the cut and never fabricates rows.',
  ['crash_points', 'inputs', 'histories'], 'all statistics (labels with any characters that labels can contain, any sizes), all concatenations and all truncation points',
  'Tests round-trip one statistic; truncation points and label contents are unbounded.',
  [PT, 'guppy/heapy/Use.py'], [('Stat.dump / load / trows parsing', PT), ('loader dispatch', 'guppy/heapy/Use.py')], obs=['Stat.dump', 'hp.load'])
p('P03', 'Difference and slicing of statistics follow from their rows',
  'The difference of two statistics has, for every label, count and size equal to the first minus the second, omits only labels without any difference, orders rows by magnitude, and its totals are the differences of the totals; indexing, slicing, looking up labels, summarising the remainder and printing are consistent with the row list whatever has been accessed before. ',
  ['inputs', 'histories'], 'all pairs of statistics (including chained differences) and all access orders',
  'Tests compute one difference; sign mixtures, disjoint labels, lazily loaded operands are not covered.',
  [PT], [('Stat.__sub__', PT), ('get_rows, get_rows_of_kinds, get_rows_n_and_other', PT)], obs=['stat - stat', 'stat[i:j]'])
p('P04', 'Paged output shows every line once, in order, within the limits',
  'For any listing, printing it and then repeatedly asking for more shows each row exactly once and in order, no page exceeding the configured number of lines, with a remaining-lines note exactly when rows remain and correct in its count; asking again for the previous, first or all rows shows those rows. ',
  ['inputs', 'histories'], 'all listing lengths, line limits, and sequences of navigation requests',
  'Tests show a few listing lengths with the default limit.',
  ['guppy/heapy/OutputHandling.py', PT, 'guppy/heapy/RefPat.py', 'guppy/heapy/Path.py'], [('MorePrinter paging', 'guppy/heapy/OutputHandling.py')], obs=['.more', '.prev', '.top', '.all'])
p('P05', 'Reference-pattern trees show true referrer classes and are finite',
  'Each line of a reference pattern shows a class of objects that are exactly the referrers (of one classification) of the class on its parent line, within the configured depth; repeated classes are marked as back-references to the line showing the same set rather than expanded again, and indexing a line by name returns the set shown on it. ',
  ['inputs', 'histories'], 'all object graphs, depth limits and access orders (lines are generated lazily)',
  'Tests print two patterns; the tree shape depends on graph cycles and on lazy generation order.',
  ['guppy/heapy/RefPat.py'], [('lazy line iterator with seen sets', 'guppy/heapy/RefPat.py'), ('row naming', 'guppy/heapy/RefPat.py')], obs=['set.rp', 'rp[i]', 'rp.<name>'])
p('P06', 'The profile reader follows a growing sample file exactly',
  'Reading a profile file incrementally while samples are appended, the file is replaced or a sample is only partly written yields at each point exactly the complete samples then in the file, in order, the same as reading it from scratch. ',
  ['crash_points', 'histories'], 'all schedules of appends, partial writes, rewrites and reads, and all labels including non-ASCII ones',
  'No test reads a changing file; the incremental reader keeps positions and checksums between reads.',
  ['guppy/heapy/Prof.py', PT, 'guppy/heapy/Use.py'], [('Stats.collect incremental reading', 'guppy/heapy/Prof.py')], state=[('lastfilesize/lastfilesum', 'prefix already read', 'guppy/heapy/Prof.py')], obs=['Prof.Stats.collect'])

p('G01', 'Lazy module attributes resolve once, consistently and with set-once rules',
  'In the lazily linked module system every attribute access yields the value its declaration defines (own attribute, factory, imported name or submodule) independent of the order of accesses, repeated access yields the same object, attributes declared changeable always show their current value, and assignments are accepted or refused exactly as declared. ',
  ['histories', 'configurations'], 'all module declarations and all orders of get, set and import operations',
  'Tests touch a few attributes in one order; caching bugs depend on access order.',
  ['guppy/etc/Glue.py'], [('Share.getattr, Interface.__getattr__/__setattr__', 'guppy/etc/Glue.py')], obs=['guppy.Root', 'hp.<attr>'])
p('G02', 'Dotted-tree text and trees convert into each other without loss',
  'Writing any tree of tagged nodes as dotted text and parsing it back gives the same tree, for all tag texts including ones with leading dots, backslashes, newlines and empty lines; parsing text that skips a level is refused. ',
  ['inputs'], 'all trees and all tag texts',
  'Tests parse a few documents; quoting rules matter only for unusual tag texts.',
  ['guppy/gsl/DottedTree.py'], [('parse_string / unparse_sexpr', 'guppy/gsl/DottedTree.py')], obs=['DottedTree.parse_string', 'unparse_sexpr'])
p('G03', 'Permuted iteration yields every combination exactly once',
  'Iterating over combinations of several sequences with the permuting iterator yields every combination exactly once, the first ones covering each element of each sequence as early as possible, and stops; word reduction by completed rewriting rules gives equal normal forms exactly to words the rules make equal. ',
  ['inputs'], 'all families of sequences and all small finitely presented algebras',
  'Tests use one or two families.',
  ['guppy/etc/IterPermute.py', 'guppy/etc/KnuthBendix.py'], [('cyclic zip order', 'guppy/etc/IterPermute.py'), ('completion', 'guppy/etc/KnuthBendix.py')])
p('R01', 'Analysis leaves the analysed program unchanged',
  'No analysis operation (listing, classifying, path finding, relating, dominator or referrer computation, dumping) changes the reference count, contents, attributes or lifetime of the objects analysed: once its results are discarded and collected, each object has the reference count it had before and dies when it would have died without the analysis: when its last program reference goes away, or at a collection once it is out of reach. While results are kept nothing the program can reach dies. Collector, recursion and thread settings are left as they were. Repeating an analysis whose results are discarded does not use more memory every time.',
  ['histories', 'inputs'], 'all sequences of analysis operations over all object graphs',
  'Tests assert printed results; a leaked or lost reference is invisible until much later.',
  ['src/heapy/stdtypes.c', HV, 'src/heapy/nodegraph.c', 'src/heapy/classifier.c', 'src/sets/nodeset.c', 'guppy/heapy/View.py', 'guppy/heapy/UniSet.py'], [('reference ownership in traversal and relate code', HV)], obs=['sys.getrefcount', 'weakref callbacks'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + '\n')
print(len(P))
