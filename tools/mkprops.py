"""Writes properties.jsonl (kept as a script because JSON lines are unpleasant to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


p('C01', 'Bit-set algebra is mathematical set algebra',
  'For every pair of bit sets, of any mix of immutable, mutable and complemented kind, and for every int or iterable that converts to a bit set on either side, union, intersection, difference, symmetric difference and complement return exactly the mathematical (finite or co-finite) set as an immutable bit set and leave both operands as they were. The in-place forms give the same set as the plain forms: a mutable left operand becomes it, an immutable one is left alone. Operands that do not convert are rejected with an exception; at most the items read before the offending one have then been merged in place, and nothing else changes.',
  ['inputs'], 'all pairs of small sets over a universe of bit positions that straddles word and sign boundaries, all operand kinds, all operators, every internal segmentation',
  'The unit tests try a handful of hand-picked sets; the four operators branch on word alignment, complement flags and segmentation, so the claim ranges over every combination of those.',
  ['src/sets/bitset.c', 'src/sets/bitset.h'],
  [('immbitset_op merge loop', 'src/sets/bitset.c:immbitset_op'), ('in-place field operations', 'src/sets/bitset.c:mutbitset_iop_*'), ('complement algebra', 'src/sets/bitset.c:cpl_conv_left,cpl_conv_right,cplbitset_*')])

p('C02', 'A mutable bit set is its operation history, however it is stored',
  'After any sequence of add, append, discard, remove, test-and-set, test-and-clear, pop, clear and in-place set operations, a mutable bit set contains exactly the bits a mathematical set would contain, and its length, iteration, membership, truth value and both ends agree, however its storage has been split into segments. Every immutable set, slice, copy or iterator taken along the way keeps the content it had when taken. A step that fails raises the documented error and leaves the set as it was.',
  ['histories'], 'all operation sequences up to a depth, for several segment-splitting sizes and word layouts, with snapshots taken at every step',
  'Copy-on-write sharing, segment splitting and lazily shrunk storage are reached only by particular sequences; the tests drive a few fixed or random ones with the default splitting size.',
  ['src/sets/bitset.c'],
  [('segment splitting and insertion', 'src/sets/bitset.c:mutbitset_split_ins1,sf_ins1'), ('copy on write', 'src/sets/bitset.c:sf_getrange_mut,mutbitset_getrange_mut,union_realloc'), ('pop and ends', 'src/sets/bitset.c:mutbitset_pop')])

p('C03', 'Bit-set comparison and hashing follow set inclusion',
  'For every pair of bit sets of any kinds, ==, !=, <=, <, >= and > give the answer of mathematical set inclusion, whatever the two sets\' internal layouts are. Immutable sets that are equal have equal hashes, so they are interchangeable as dictionary keys. Comparing with something that is not a bit set never yields a wrong set relation.',
  ['inputs', 'histories'], 'all pairs of small sets, each in every reachable internal layout (alignments, empty fields, empty segments, complement flags)',
  'Layouts with emptied words and emptied segments arise only from histories of removals; tests compare freshly built sets.',
  ['src/sets/bitset.c'],
  [('field-wise comparison', 'src/sets/bitset.c:sf_tst_sf'), ('richcompare dispatch', 'src/sets/bitset.c:claset_richcompare'), ('hash', 'src/sets/bitset.c:immbitset_hash,cplbitset_hash')])

p('C04', 'Bit-set construction, indexing, shifting and pickling are exact',
  'Ranges contain exactly the integers of the corresponding Python range; a bit set indexed or sliced (with unit step) gives exactly the elements of its sorted list; shifting adds the amount to each element or raises OverflowError when one would leave the machine range. int() of a set and the set of an int are inverse to each other, as are pickling, copying to mutable and building from an iterable. Arguments out of range raise an ordinary exception and never a wrong set or a crash.',
  ['inputs'], 'all small ranges, slices, shifts and sets around word boundaries and at both ends of the machine integer range',
  'The formulas split on alignment, step size versus word size and overflow at the extreme positions; tests sample few of those.',
  ['src/sets/bitset.c'],
  [('range construction', 'src/sets/bitset.c:_NyImmBitSet_Range'), ('slicing', 'src/sets/bitset.c:sf_slice,mutbitset_slice'), ('shift', 'src/sets/bitset.c:immbitset_lshift'), ('int conversion', 'src/sets/bitset.c:immbitset_int,mutbitset_iop_PyLongObject'), ('pickle form', 'src/sets/bitset.c:immbitset_reduce_flags,_NyBitSet_Form')])

p('C05', 'Node sets are sets of objects by identity',
  'After any sequence of operations, a mutable node set contains exactly the objects, told apart by identity and never by == or hash, that a mathematical set would contain; the binary operators, comparisons, truth value, length, membership and iteration of mutable and immutable node sets agree with that. Immutable node sets never change, equal ones have equal hashes, and an object can be found again by its address exactly when it is an element. A failing step raises and leaves the set as it was, except that an in-place operation with an iterable may have merged the items read before the failure.',
  ['histories', 'inputs'], 'all operation sequences up to a depth over a universe of objects with hostile __eq__ and __hash__, and all pairs of subsets for the operators',
  'Tests use few elements and fixed sequences; the claim covers every interleaving of in-place and copying operations, self-application and iterables with duplicates.',
  ['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'guppy/sets/__init__.py'],
  [('mutable node set', 'src/sets/nodeset.c:nodeset_iop*,nodeset_bitset'), ('immutable merge', 'src/sets/immnodeset.c:immnodeset_op'), ('address search', 'src/sets/immnodeset.c:immnodeset_obj_at')])

p('C06', 'References are neither leaked nor over-released',
  'Whatever operations are applied to sets, node graphs, heap views and classifiers, and whether they succeed or fail, each object passed in or returned ends up with exactly the references its current holders account for. In particular, after the results are dropped every object\'s reference count is what it was before, elements stay alive exactly as long as some container holds them, and a container in a reference cycle is reclaimed by the garbage collector.',
  ['histories', 'fault_sequences'], 'all operation sequences up to a depth over sets and graphs and every heap-view entry point on small graphs, with iterables, callbacks and arguments that fail at every possible position',
  'A lost or extra reference is invisible to value-level tests; it shows only in a reference ledger kept over the whole history including error exits.',
  ['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'src/heapy/nodegraph.c', 'src/heapy/hv.c', 'src/heapy/classifier.c', 'src/heapy/horizon.c'],
  [('node set ownership', 'src/sets/nodeset.c:nodeset_dealloc,nodeset_setobj'), ('graph ownership', 'src/heapy/nodegraph.c:ng_ass_sub,nodegraph_clear'), ('heap view error exits', 'src/heapy/hv.c')])

p('C07', 'A node graph is the multimap of its edges',
  'After any sequence of edge additions, updates, assignments and clears, interleaved with lookups, a node graph answers lookups, iteration, length, inversion, domain and relation-image, domain restriction and coverage queries exactly as the set of edges it was given, without duplicates. The answer never depends on the order in which edges were added or on when the graph was last searched. Lookups of unknown nodes fail without changing the graph.',
  ['histories'], 'all operation sequences up to a depth over small node universes, and all small edge relations for the derived operations',
  'The graph sorts lazily on first lookup and switches representation; order-dependent faults need particular interleavings of add and lookup.',
  ['src/heapy/nodegraph.c'],
  [('lazy sort and dedupe', 'src/heapy/nodegraph.c:ng_sortetc,NyNodeGraph_Region'), ('assignment', 'src/heapy/nodegraph.c:ng_ass_sub'), ('derived relations', 'src/heapy/nodegraph.c:ng_relimg,ng_inverted,ng_domain_restricted,ng_domain_covers')])

p('C08', 'Reachability is exactly the closure of the referents relation',
  'For every object graph, the set reported as the heap of a root, or as reachable from a start set while avoiding other objects, contains every object to which such a path of references exists and no other. The variant that stops at an avoided boundary reports exactly the closure as documented. The one-step image of any set is exactly the union of its members\' referents.',
  ['inputs', 'programs'], 'all directed object graphs up to four nodes, realised with containers of different types, with all start sets and all avoid sets',
  'Tests check a few hand-made graphs; reachability with avoid sets, cycles, self-references and shared nodes has many shapes.',
  ['src/heapy/hv.c', 'guppy/heapy/View.py'],
  [('reachability walk', 'src/heapy/hv.c:hv_reachable,hv_reachable_x,hv_heap,iter_rec'), ('one-step image', 'src/heapy/hv.c:hv_relimg')])

p('C09', 'Hidden objects never show up and hide nothing else',
  'Objects marked as hidden, by exact type, by hiding tag on themselves or in their instance dict, or as frames beyond the limit frame, never appear in a heap, a referrer or referent set, a path or a pattern of the view that hides them, nor do objects reachable only through them. All other objects still appear, and views with other tags are not affected. Objects the analysis itself allocates do not appear in the result it returns.',
  ['configurations', 'inputs'], 'all assignments of hiding mechanisms to nodes of all small object graphs, for several views at once',
  'Hiding interacts with every traversal; tests check single hidden objects in one view only.',
  ['src/heapy/hv.c', 'guppy/heapy/View.py', 'src/heapy/stdtypes.c'],
  [('hidden test', 'src/heapy/hv.c:hv_is_obj_hidden'), ('registrations', 'src/heapy/hv.c:hv_register__hiding_tag__type,hv_register_hidden_exact_type'), ('limit frame', 'src/heapy/rootstate.c, guppy/heapy/View.py')])

p('C10', 'Every reference the collector knows is a referent with a name',
  'For an object of any built-in or user-defined type, the reported referents include every object that the interpreter\'s own garbage collector traverses from it, and nothing it does not hold. Every such edge of instances and of the ordinary container, class, function, code, frame, cell, method, module and traceback types is described by a relation, and a relation that is written as a Python expression evaluates, in the context it names, to the very object at the end of the edge. An edge with several relations gets all of them.',
  ['inputs', 'programs'], 'all small values of each supported container type with every placement of the target among the slots, plus a zoo of one object per built-in type in every state that changes its slots',
  'The per-type traversal and naming code follows interpreter internals slot by slot; tests cover some slots of some types.',
  ['src/heapy/stdtypes.c', 'src/sets/sets.c', 'src/heapy/hv.c', 'guppy/heapy/Path.py'],
  [('type-specific relations', 'src/heapy/stdtypes.c:*_relate'), ('type-specific traversal', 'src/heapy/stdtypes.c:*_traverse'), ('member and slot relations', 'src/heapy/hv.c:hv_relate'), ('relation rendering', 'guppy/heapy/Path.py:Rel_*')])

p('C11', 'Shortest paths are exactly the shortest paths',
  'For every object graph, destination and source set, with any nodes and edges avoided, the path set counts and enumerates exactly the distinct shortest reference paths, each exactly once, every index giving the path that iteration gives at that position. Each printed path is a valid chain of references from source to destination and, when it is written as a Python expression, evaluates to the destination. Asking for the next longer paths avoids exactly the edges of the ones already shown.',
  ['inputs'], 'all small object graphs with parallel edges, all source and destination sets, all avoid sets up to a size',
  'Path counting multiplies edge multiplicities over a layered graph; tests check a handful of graphs.',
  ['guppy/heapy/Path.py', 'src/heapy/hv.c', 'guppy/heapy/View.py'],
  [('breadth-first layers', 'guppy/heapy/Path.py:_PathsIter,Paths; src/heapy/hv.c:hv_shpathstep'), ('counting and indexing', 'guppy/heapy/Path.py:Paths.numpaths,__getitem__')])

p('C12', 'Referrers are the inverse of referents, whatever was asked before',
  'For any set of objects, the reported referrers are exactly the reachable, visible objects that have one of them as a referent, no matter which referrer queries were made earlier, in which order, and whether the incremental or complete form was used. The collector-based variant agrees for objects the collector tracks. After the object graph changes and the caches are dropped, the answers follow the new graph.',
  ['histories', 'inputs'], 'all sequences of referrer queries up to a depth on all small object graphs, interleaved with graph mutations and cache resets',
  'The referrer graph is filled incrementally and remembers which targets it has no referrers for; staleness depends on the query history.',
  ['guppy/heapy/View.py', 'src/heapy/hv.c'],
  [('incremental referrer graph', 'guppy/heapy/View.py:referrers; src/heapy/hv.c:hv_update_referrers'), ('complete referrer graph', 'src/heapy/hv.c:hv_update_referrers_completely')])

p('C13', 'Dominators and dominated sizes match their definition',
  'For every object graph and every object set, the dominated set is exactly the set of objects that become unreachable from the root when the set is taken away, and the dominated size is the total size of that set. When several sets are given at once, each gets what would become unreachable from the root and from the other sets. The immediate dominators of a set are exactly those of its referrers that can be reached from the root without passing another of its referrers. Doing the query changes neither the graph nor later answers.',
  ['inputs'], 'all small object graphs hung under a private root, all subsets as the query',
  'Domination is a statement about all paths; the tests check a couple of fixed graphs.',
  ['guppy/heapy/View.py', 'src/heapy/hv.c', 'guppy/heapy/UniSet.py'],
  [('dominated set', 'guppy/heapy/View.py:dominos,domisize'), ('immediate dominators', 'guppy/heapy/View.py:imdom')])

p('C14', 'Every classification is a partition by its key',
  'For every classifier and every set of objects, partitioning splits the set into classes that are disjoint, non-empty and together make up the set; each object lies in the class whose kind it satisfies and in no other, and the key is the one the classifier documents (type, class or dict owner, size, module, referrer kinds, owner, identity, or combinations of these). Selecting a class by its kind from the set gives back exactly that class. The same holds for refined classifications made by combining classifiers.',
  ['inputs', 'configurations'], 'all classifiers and pairwise combinations, over all subsets and reference structures of a small universe of objects',
  'Classification memoises, follows referrers and dict owners, and compares in C; tests check a few examples per classifier.',
  ['src/heapy/hv_cli_*.c', 'src/heapy/classifier.c', 'guppy/heapy/Classifiers.py', 'src/heapy/hv.c'],
  [('partition', 'src/heapy/classifier.c:cli_partition'), ('selection', 'src/heapy/classifier.c:cli_select'), ('per-classifier code', 'src/heapy/hv_cli_*.c')])

p('C15', 'Kind expressions mean what they denote',
  'For kinds built from any classifiers with and, or, difference, symmetric difference and complement, an object is a member of the result exactly when Boolean logic says so, and selecting from a set by the result gives exactly the members. Equality, inclusion and disjointness that the algebra reports between kinds hold for every object, kinds reported equal have equal hashes, and simplification never changes membership. The same operators applied to object sets give the set-theoretic result.',
  ['inputs'], 'all kind expressions up to a nesting depth over several classifier families, evaluated on a universe of objects that realises every combination of atoms',
  'The algebra simplifies symbolically by family-specific rules; a wrong rule shows only for particular shapes of expression.',
  ['guppy/heapy/UniSet.py', 'guppy/heapy/Classifiers.py'],
  [('family rules', 'guppy/heapy/UniSet.py:*Family'), ('object set operators', 'guppy/heapy/UniSet.py:IdentitySet*')])

p('C16', 'Partition tables add up',
  'For any set of objects and any classifier, the rows of the partition table are exactly the classes; counts and sizes of the rows add up to the totals of the set; percentages and cumulative figures follow from them; and rows are ordered as documented. Indexing, slicing, kind lookup and paging over rows select exactly the rows named, for every index and slice. The individual size of a set is the sum of the sizes the interpreter itself reports for its members.',
  ['inputs'], 'all partitions of small multisets of sizes and kinds, all row indices and slices, all orderings, all page boundaries',
  'Boundary rows, cumulative and "other" rows and negative or out-of-range indices are not covered systematically.',
  ['guppy/heapy/Part.py', 'guppy/heapy/UniSet.py', 'src/heapy/hv.c'],
  [('row computation', 'guppy/heapy/Part.py:Partition,SetPartition,IdentityPartition'), ('statistics', 'guppy/heapy/Part.py:Stat')])

p('C17', 'Statistics survive subtraction and dump/load, even when cut short',
  'The difference of two statistics has, for every kind, exactly the difference of counts and sizes. A statistic written to a file and loaded back, singly or as one of many in the same file, equals the original in all figures, names and order; loading all of a file yields every record and then ends normally. If the file was cut off at any byte, loading yields the complete records before the cut and never a record with altered figures.',
  ['inputs', 'crash_points'], 'all small statistics and pairs of them, kind names with awkward characters, and every truncation point of dumped files',
  'Tests round-trip a few statistics and never a truncated or multi-record file systematically.',
  ['guppy/heapy/Part.py', 'guppy/heapy/Use.py'],
  [('difference', 'guppy/heapy/Part.py:Stat.__sub__'), ('dump', 'guppy/heapy/Part.py:Stat.dump'), ('load', 'guppy/heapy/Part.py:Stat.unhandled_load,_load; guppy/heapy/Use.py:load,loadall')])

p('C18', 'Paged output is the whole output, in order',
  'Following the "more" links of any table or listing from the top shows every row once, in order, with no row lost or repeated at a page border, whatever the number of rows and the page size. Going back, to the top, or asking for everything shows the same rows. The numbers announced for what remains are right.',
  ['inputs', 'histories'], 'all row counts around the page sizes and all navigation sequences up to a depth',
  'Page borders depend on row and line counts; tests look at a few sizes.',
  ['guppy/heapy/OutputHandling.py', 'guppy/heapy/Part.py', 'guppy/heapy/Path.py'],
  [('printer and pages', 'guppy/heapy/OutputHandling.py'), ('more/all/prev/top', 'guppy/heapy/OutputHandling.py:MorePrinter')])

p('C19', 'Reference patterns are the classified referrer tree',
  'For every object graph, the reference pattern of a set lists, level by level, exactly the partition of the referrers of each row, up to the depth and stop conditions asked for; a row met before is shown as a back reference to exactly that row. Each row can be reached by its printed number or attribute name and yields exactly the objects the row counted. Asking for more rows never changes the rows already shown.',
  ['inputs'], 'all small object graphs, depths and stop options; all row names',
  'Cycles, sharing and naming of rows combine; the tests print a few patterns.',
  ['guppy/heapy/RefPat.py'],
  [('tree building', 'guppy/heapy/RefPat.py:ReferencePattern,RefPatIter'), ('row naming', 'guppy/heapy/RefPat.py:str_as_atr')])

p('C20', 'A horizon reports exactly the objects created since it was set',
  'The set of new objects reported against a horizon is exactly the set of the given objects that were created after the horizon was taken: an object that existed stays old for as long as it lives, and an object created later is new even when it reuses the memory of an old object that was deallocated meanwhile. Several horizons at once, created and dropped in any order, do not disturb each other or the deallocation of any type.',
  ['histories'], 'all sequences of object creation, deletion, horizon creation, horizon deletion and queries up to a depth, over object types that share and override deallocation, with forced address reuse',
  'Errors need an address reused at the right moment by the right type while the right horizons are alive.',
  ['src/heapy/horizon.c', 'guppy/heapy/Use.py', 'guppy/heapy/View.py'],
  [('deallocation patching', 'src/heapy/horizon.c:horizon_patched_dealloc,horizon_patch_dealloc,horizon_unpatch'), ('news', 'src/heapy/horizon.c:horizon_news')])

p('C21', 'Objects held only by a running frame or thread are found and named',
  'An object held only by a local variable, cell or argument of any live frame of any thread, by the evaluation stack of a frame that waits for a Python function it called, by a suspended generator or coroutine, by an exception being handled, or by the interpreter and thread state that the root names, is part of the heap and is reached from the root. The root names every frame of every thread by its thread and its number from the bottom, the name leads to that frame, and the edges from the root and from frames on the way to the object have names. Frames that have ended no longer hold anything. A limit frame leaves out exactly the frames above it in that thread, and none of another thread.',
  ['schedules', 'programs'], 'all small stacks of nested frames and threads parked at every suspension point, with a marker object in every kind of frame slot',
  'Root traversal walks interpreter structures that differ per frame state; tests check the main thread at one point.',
  ['src/heapy/rootstate.c', 'src/heapy/stdtypes.c', 'guppy/heapy/View.py'],
  [('root traversal', 'src/heapy/rootstate.c:rootstate_traverse'), ('root relations', 'src/heapy/rootstate.c:rootstate_relate'), ('frame relations', 'src/heapy/stdtypes.c:frame_relate')])

p('C22', 'Errors in user code pass through and leave everything intact',
  'When an iterator, callback, classifier function or comparison supplied by the user raises at any point of an operation, exactly that exception reaches the caller, and the sets, graphs, views and tables involved either are unchanged or hold exactly the part the operation documents to have done. Every later operation on them behaves as if the failed one had not been tried. Unsuitable arguments of any type are rejected by an exception, never by a crash.',
  ['fault_sequences', 'inputs'], 'every public entry point with a failure injected at every callback position, and with every argument replaced by every kind of unsuitable object',
  'Error exits are the least tested code and fail in ways that surface only in a later operation.',
  ['src/sets/*.c', 'src/heapy/*.c', 'guppy/heapy/*.py'],
  [('iteration over user iterables', 'src/sets/bitset.c:mutbitset_iop_iterable; src/sets/nodeset.c:nodeset_iop_iterable'), ('user-defined classifier', 'src/heapy/hv_cli_user.c'), ('argument parsing', 'src/sets/*.c, src/heapy/*.c')])

p('C23', 'Running out of memory raises MemoryError and corrupts nothing',
  'If any single memory allocation inside a set, graph, traversal, classification or path operation fails, or all fail from that one on, the operation raises MemoryError (or succeeds without needing it) and the interpreter goes on. The operands keep a consistent content: sets equal either their old or their new value, and the same operation tried again with memory available gives the right result. No reference is leaked or lost on the way.',
  ['fault_sequences'], 'every operation of the compiled modules with the k-th allocation failing, for every k the operation makes, alone and from k on',
  'No test makes allocations fail.',
  ['src/sets/*.c', 'src/heapy/*.c'],
  [('allocation error exits', 'src/sets/bitset.c, src/sets/nodeset.c, src/heapy/nodegraph.c, src/heapy/hv.c, src/heapy/classifier.c, src/heapy/hv_cli_*.c')])

p('C24', 'Lazily imported attributes are shared, single and order-independent',
  'Whatever the order in which attributes of the session objects are first accessed, each name resolves to the same object on every later access and from every sibling that shares it, is computed once, and equals what any other access order gives. Setting or deleting a changeable attribute is seen by exactly those that share it; others refuse with an error. A failing computation raises its own error and can be retried.',
  ['histories', 'configurations'], 'all access, set and delete sequences up to a depth over small generated interface configurations and the real session tree',
  'Resolution is stateful and order-dependent; tests access attributes in one order.',
  ['guppy/etc/Glue.py', 'guppy/__init__.py'],
  [('attribute resolution', 'guppy/etc/Glue.py:Share.getattr*,Interface,Clamp'), ('sibling imports', 'guppy/etc/Glue.py:Share.import*')])

p('C25', 'Writing documents never loses the previous version',
  'When generated files are written over existing ones and the process stops at any point, or any file operation fails, the previous content of every file is still present under its own or its backup name, and no file outside the target and its backup is touched. A completed write leaves exactly the new content in the target and the previous content in the backup.',
  ['crash_points', 'fault_sequences'], 'all small file systems and write requests, with a crash or an I/O error before and after every primitive file operation, torn writes included',
  'Tests write once, successfully.',
  ['guppy/gsl/Filer.py', 'guppy/gsl/FileIO.py'],
  [('backup then write', 'guppy/gsl/Filer.py:Filer.write'), ('primitive operations', 'guppy/gsl/FileIO.py:IO')])

p('C26', 'Dotted trees round-trip through their text form',
  'Unparsing any tree of tags and parsing the text gives back exactly that tree, for any characters in the tags and any shape. Parsing any text either yields a tree or reports an error with the right line. Equal trees have equal text.',
  ['inputs'], 'all trees up to a size with all short tags over an alphabet of the significant characters, and all short texts',
  'Quoting rules interact at line starts; the test tries a few trees.',
  ['guppy/gsl/DottedTree.py'],
  [('parser', 'guppy/gsl/DottedTree.py:ReadSource,_DottedTree.parse*'), ('unparser', 'guppy/gsl/DottedTree.py:unparse*')])

p('C27', 'Regular expressions and automata denote the same language',
  'Every finite automaton accepts the same words before and after it is made deterministic and reduced, and the regular expression it is solved for denotes exactly these words. Simplifying, splitting or printing an expression keeps its language, reversing it reverses every word, and limiting it keeps the words within the limit. Expressions that compare equal denote the same language. Word enumeration lists exactly the words of each length.',
  ['inputs'], 'all regular expressions up to a size over two or three letters against all words up to a length',
  'Language equality quantifies over all words; tests compare printed forms of a few expressions.',
  ['guppy/etc/RE.py', 'guppy/etc/RE_Rect.py', 'guppy/etc/FSA.py'],
  [('expression algebra', 'guppy/etc/RE.py'), ('automata', 'guppy/etc/FSA.py'), ('rectangular decomposition', 'guppy/etc/RE_Rect.py')])

p('C28', 'Word-rewriting completion decides equality in the presented category',
  'For every finite presentation whose completion terminates, two words reduce to the same normal form exactly when they are equal in the category or monoid presented, and reduction is idempotent. The functors and permutations derived from finite presentations satisfy their equations, and the permutation enumerator lists each permutation once. Completion that gives up says so.',
  ['inputs'], 'all presentations up to a size over two or three generators, checked against exhaustive congruence closure on words up to a length',
  'Confluence is a property of all words and all overlaps of rules; tests run a few presentations.',
  ['guppy/etc/KnuthBendix.py', 'guppy/etc/Cat.py', 'guppy/etc/KanExtension.py', 'guppy/etc/IterPermute.py'],
  [('completion', 'guppy/etc/KnuthBendix.py:KnuthBendix'), ('Kan extension', 'guppy/etc/KanExtension.py'), ('permutations', 'guppy/etc/IterPermute.py')])

p('C29', 'Dict owners and class-or-dict kinds are attributed correctly',
  'A dictionary that is the attribute dictionary of some object is attributed to exactly that object (to one of them, if several share it) and classified as dict of its kind; every other dictionary is classified as having no owner. This holds for instances, classes, static types whenever they were imported, modules and objects with slots, whatever queries were made before and after dictionaries are replaced, shared or swapped: an answer is true now or was true at some moment since the owner cache was last renewed, which happens at a garbage collection and when a dictionary new to the cache is asked about.',
  ['histories', 'inputs'], 'all sequences of dictionary swaps, object creations and owner queries up to a depth over objects of every kind that has an attribute dictionary',
  'Ownership is cached in a graph updated on demand; a stale or wrongly shared dictionary needs a particular history.',
  ['src/heapy/hv.c', 'src/heapy/hv_cli_dictof.c', 'guppy/heapy/Classifiers.py', 'guppy/heapy/View.py'],
  [('owner graph', 'src/heapy/hv.c:hv_update_dictowners'), ('dictof classification', 'src/heapy/hv_cli_dictof.c')])

p('C30', 'Measuring relative to a reference point reports exactly the difference',
  'After a reference point is set, the reported heap is exactly the currently reachable visible objects that were created since then; clearing it restores the full heap; and it never includes the analysis\'s own objects. Repeating the query without creating objects reports nothing new. Totals and counts of the relative and the absolute heap agree with each other.',
  ['histories'], 'all sequences of allocation, release, reference-point setting and clearing, and heap queries up to a depth',
  'Relative heaps depend on what was alive and reused between the calls; tests do one step.',
  ['guppy/heapy/Use.py', 'guppy/heapy/View.py', 'src/heapy/horizon.c'],
  [('reference point', 'guppy/heapy/Use.py:setref,setrelheap,heap'), ('horizon', 'src/heapy/horizon.c')])

p('C31', 'Loading and browsing a profile shows what was recorded',
  'Any sequence of recorded heap samples, appended to a profile file while a reader follows it, is read back sample for sample in order, each with its recorded kinds, counts and sizes; a sample only partly written so far is not shown until it is complete. Opening another file starts afresh.',
  ['histories', 'crash_points'], 'all interleavings of appending pieces of records, at every cut point, with reader polls, over small profiles',
  'The profile browser has no test that appends while reading.',
  ['guppy/heapy/Prof.py', 'guppy/heapy/Part.py'],
  [('profile statistics', 'guppy/heapy/Prof.py:Stats')])

p('C32', 'A kind prints as an expression that denotes it',
  'For every kind, however it came about (by calling a classifier, by classifying a set, by dictof, by sets of kinds and by Boolean combination) its representation, evaluated where the session is known under the name it uses, gives a kind that is equal to it, with the same hash, the same brief form up to the order of parts, and the same members; kinds that are not equal print differently. This holds for types, modules, files, keys and attributes of any name. The brief and the printed form of a kind can always be computed and have balanced parentheses.',
  ['inputs'], 'all kind expressions up to three operands over all classifiers, every type of the interpreter, and names with blanks, dots, quotes, brackets and keywords',
  'The tests evaluate the representation of a few dozen kinds with ordinary names, and look at brief forms of single kinds only.',
  ['guppy/heapy/Classifiers.py', 'guppy/heapy/UniSet.py', 'guppy/heapy/Use.py'],
  [('representations', 'guppy/heapy/Classifiers.py:tc_repr, get_userkindargrepr, get_sokindrepr, _rel2str'), ('their inverses', 'guppy/heapy/Classifiers.py:tc_adapt, get_userkind, _str2rel'), ('operators', 'guppy/heapy/UniSet.py:AndFamily, OrFamily, InvertFamily')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
