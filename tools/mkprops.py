#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
SQL = 'gb/hypergraph/sql.py'; LITE = 'gb/hypergraph/sqlite.py'; MY = 'gb/hypergraph/mysql.py'
HG = 'gb/hypergraph/hypergraph.py'; BHG = 'gb/hypergraph/batch_hypergraph.py'
EDGE = 'gb/hypergraph/edge.py'; SYM = 'gb/hypergraph/symbol.py'; Q = 'gb/hypergraph/queries.py'
TREE = 'gb/knowledge/semantic_tree.py'


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


# ------------------------------------------------------------------ storage
p('S01', 'Caller data never becomes SQL text',
  'Whatever symbols, edges, patterns, roots or timestamps a caller passes to any store operation, they reach the '
  'database only as bound parameter values; no statement text ever contains any part of them.',
  ['inputs', 'configurations'], 'every argument value of every operation, on both SQL backends',
  'the tests use about ten harmless symbols; quotes, percent signs and SQL fragments never occur in them, and the '
  'MySQL backend is never run', [SQL, LITE, MY], [('bound parameters in every execute', SQL)])
p('S02', "Statements fit each backend's driver and schema",
  "Every statement the storage layer issues is valid on whichever SQL backend is connected: it uses that backend's "
  'parameter marker, binds exactly one value per marker, and names only tables and columns that opening a store with '
  'that backend creates. Both backends create the same tables and columns, with the same default degree (0) and '
  'timestamp (-1).',
  ['configurations', 'inputs'], 'both SQL backends, every operation',
  'only SQLite is exercised; a statement that is wrong for MySQL passes every test',
  [SQL, LITE, MY], [('placeholder chosen per backend', SQL + ':SQL.__init__'), ('create_tables', LITE), ('create_tables', MY)])
p('S03', 'Writes are durable when the call returns',
  'When add, remove, destroy or a belief operation returns successfully outside a batch, everything it wrote has been '
  'committed; when a batch returns successfully, everything written by its functions has been committed.',
  ['histories', 'crash_points'], 'every mutating operation and every path through it, a crash immediately after return',
  'the tests read back over the same connection, which sees uncommitted rows, and never reopen the database',
  [SQL, HG, BHG], [('close_cursor(commit=True)', SQL), ('batch_exec', SQL)])
p('S04', 'Adds, removes and batches are all-or-nothing',
  'All rows written by one add or remove call (of one edge or several), or by all the functions of one batch, become '
  'durable in one commit issued after the last of them. If the call or the batch fails part-way none of its writes is '
  'ever committed, and the store then behaves as it does outside a batch.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every point at which a statement can fail or the process can stop, every sequence of operations inside a batch',
  'no test makes a statement or a batch function fail, and none looks at the database from a second connection while '
  'a batch is open', [SQL], [('batch-wide cursor and single commit', SQL + ':open_cursor/close_cursor/batch_exec')])
p('S05', 'Operations compose inside a batch',
  'Any store operation can be called any number of times inside a batch, including another batch or a multi-edge add, '
  'without closing the cursor the batch is using or ending the batch early. Outside a batch, every operation releases '
  'every database cursor it opens before it returns.',
  ['histories'], 'every sequence and nesting of operations',
  'the batch test runs two single adds and two single removes; no read, nested batch or multi-edge add is ever made '
  'inside a batch', [SQL], [('open_cursor/close_cursor', SQL)])
p('S06', 'Queries never change the store',
  'Existence checks, pattern queries, stars, root lookups, degrees, timestamps, iteration over all vertices, source '
  'lookups, ego networks and intersections only read: they never insert, update or delete a row, alter a table or '
  'commit.',
  ['inputs', 'histories'], 'every query operation, every argument, on both SQL backends',
  'tests compare query results, not the database before and after a query', [SQL, HG, Q], [('SELECT-only query operations', SQL)])
p('S07', 'Every edge is indexed under all its orderings',
  'Adding an edge of n elements stores one index entry for each of the n! orderings of its elements, each tagged with '
  'the number of that ordering; removing the edge deletes exactly those entries. Reading an entry back uses its tag to '
  'restore the original order of the elements.',
  ['inputs'], 'edges of every arity, with atomic, numeric, nested and repeated elements',
  'tests add edges of three elements only, so a cap, filter or deduplication that starts at another arity or with a '
  'repeated element is not seen', [SQL],
  [('do_with_edge_permutations', SQL), ('nthperm/unpermutate', SQL), ('cur2edges', SQL)])
p('S08', 'Degree counts participations',
  'Adding an edge that is not stored raises the degree of each of its elements by exactly one per position (a vertex '
  'seen for the first time starts at one), and removing a stored edge lowers each by exactly one. No other operation '
  "changes a degree, and an edge that is also used as a vertex keeps the degree it has as a vertex when it is itself "
  'added or removed.',
  ['inputs', 'histories'], 'every order of adds and removes, nested edges, repeated elements',
  'tests look at the degree of two atoms after four operations; edges that are vertices and repeated elements are not '
  'covered', [SQL], [('inc_degree/dec_degree', SQL), ('add_raw/remove_raw', SQL)])
p('S09', 'Re-adding and over-removing change nothing',
  'Adding an edge that is already stored, or removing one that is not, performs no write at all: no index entry, '
  'degree, timestamp or vertex changes.',
  ['histories', 'inputs'], 'every repetition and order of adds and removes',
  'no test adds the same edge twice or removes an absent one and then looks at degrees or timestamps',
  [SQL], [('exists guard', SQL + ':add_raw/remove_raw')])
p('S10', 'Timestamps record first introduction',
  'The timestamp passed to add, or -1 if none is passed, is stored unchanged for every vertex and edge that call '
  'introduces, through every layer that forwards adds. A vertex that is already stored keeps the timestamp it has '
  'until it is removed.',
  ['inputs', 'histories'], 'every timestamp, every order of adds and removes, adds through the facade, beliefs and the buffered graph',
  'tests use one timestamp value and never re-add a vertex with another one through a buffered graph',
  [SQL, HG, BHG], [('timestamp column written on insertion only', SQL)])
p('S11', 'Star and root lookups match whole entities',
  'The star of an entity is exactly the set of stored edges that have that entity as an element, and the symbols with '
  'a root are exactly the stored symbols consisting of that root, a slash and a namespace. Entities whose text merely '
  'starts with the same characters are never included, and no entity that qualifies is left out.',
  ['inputs'], 'every entity and root, including ones that are prefixes of others, nested edges and numbers',
  'tests query two symbols that are not prefixes of one another', [SQL],
  [('delimiter-terminated range scans', SQL + ':str2perms/symbols_with_root'), ('str_plus_1', SQL)])
p('S12', 'Pattern matching is exact and positional',
  'A stored edge is returned for a pattern if and only if it has as many elements as the pattern and, at every '
  'position that is not a wildcard, the same entity as the pattern. An edge exists exactly when the pattern made of '
  'its own elements returns it; patterns of wildcards only match every edge of that length.',
  ['inputs'], 'every pattern and every stored edge, including numbers, nested edges, lists and all-wildcard patterns',
  'tests use patterns of three positions with at least one symbol', [SQL],
  [('prefix scan followed by a positional filter', SQL + ':pattern2edges/edge_matches_pattern')])
p('S13', 'Opening keeps data and destroy erases it',
  'Opening a store never deletes, updates or drops anything that is stored in it. Destroying a store deletes all rows '
  'of every table that any other operation writes, and every other operation deletes only rows that belong to the '
  'edges it was asked to remove.',
  ['histories', 'configurations'], 'every reopening, every destroy, every remove, on both SQL backends',
  'tests open the same file repeatedly but never check that what an earlier opening stored is intact, and destroy is '
  'only checked through one edge', [SQL, LITE, MY], [('idempotent create_tables', LITE), ('destroy', SQL)])
# ------------------------------------------------------------------ facade
p('F01', 'The facade forwards operations faithfully',
  'Each storage operation of the hypergraph facade invokes the operation of the same name on the configured backend '
  "exactly once, with the caller's arguments unchanged and in the same roles, and returns what the backend returns.",
  ['inputs', 'configurations'], 'every operation, every argument, every backend',
  'tests call most operations with default arguments and a single backend', [HG], [('delegation', HG)])
p('F02', 'Backends implement the whole interface',
  'Every backend provides every operation of the backend interface with the same parameters and default values. The '
  'null backend accepts every operation, touches nothing, and answers with the same kind of empty value as an SQL '
  'backend holding no edges.',
  ['configurations', 'inputs'], 'every backend and every operation',
  'interface gaps only show when the missing operation is called on that backend',
  ['gb/hypergraph/backend.py', 'gb/hypergraph/null.py', SQL, LITE, MY], [('Backend base class', 'gb/hypergraph/backend.py')])
p('F03', 'A belief records the fact and its source',
  'Adding a belief stores, for every given edge, the edge itself and a link made of the source relation, that edge and '
  'the source, in that order. The sources of an edge are exactly the sources linked to it that way.',
  ['inputs', 'histories'], 'every edge, source and number of edges, any other relations present',
  'tests use one edge and two sources, never several edges in one call', [HG], [('add_belief/sources', HG)])
p('F04', 'A fact survives while some source supports it',
  'Withdrawing a belief removes the link between that source and the fact and, only if afterwards no source is left '
  'for the fact, the fact itself; nothing else is removed.',
  ['histories'], 'every order of adding and withdrawing beliefs, several sources',
  'one two-source scenario is tested', [HG], [('remove_belief', HG)])
p('F05', 'Buffered adds all reach the backend, once and in order',
  'Every edge added through the buffered hypergraph is handed to the backend exactly once, in the order it was added '
  'and with the timestamp it was added with (a timestamp given to flush counts for those added without one), when the buffer fills up, is flushed, or an edge is removed. The buffer '
  'is emptied only after the backend has accepted its content; flushing an empty buffer does nothing and no caller '
  'collection is modified.',
  ['histories', 'fault_sequences'], 'every sequence of adds, removes and flushes around the buffer limit, backend failures during a flush',
  'the buffered hypergraph has no tests', [BHG], [('buffer and flush', BHG)])
p('F06', 'Backends are selected by name with the settings they need',
  'Each backend name that the command line advertises selects the backend of that name, any other name is rejected '
  'with an error, and the settings every command passes include everything the selected backend requires, taken from '
  'the matching command-line option.',
  ['configurations'], 'every backend name and every command',
  'the command line has no tests', ['gb/gbrain.py', HG, LITE, MY], [('HyperGraph.__init__', HG), ('cli options', 'gb/gbrain.py')])
p('F07', 'One edge or several is decided the same way everywhere',
  'Add, remove, add-belief and the buffered add all treat their argument as several edges exactly when every one of '
  'its elements is itself an edge, and as a single edge otherwise; in particular an edge whose relation is itself an '
  'edge but which has an atomic element is always one edge.',
  ['inputs'], 'every edge shape, including compound relations', 'no test adds an edge with a compound relation',
  [SQL, HG, BHG], [('collection test in add/remove/add_belief', SQL)])
# ------------------------------------------------------------------ symbols, edges, queries
p('Y01', 'Symbol and edge helpers are pure',
  'The symbol and edge helper functions never modify their arguments or any shared state, and except for the two that '
  'are documented to be random they depend on nothing but their arguments, so that every process computes the same '
  'result for the same arguments.',
  ['inputs', 'histories'], 'every helper, every argument, every process',
  'each helper is tested on one or two inputs, once, in one process', [SYM, EDGE], [('side-effect-free functions', SYM)])
p('Y02', 'Sanitised symbols contain no reserved characters',
  'Converting any non-empty text into a symbol yields non-empty lower-case text without slashes, parentheses or white space of any kind, '
  'so that it is read back as one element of an edge.',
  ['inputs'], 'every text', 'the conversion is not tested', [SYM], [('str2symbol', SYM)])
p('Y03', 'Symbols split into and rebuild from their parts',
  'A concept symbol built from parts splits back into those parts, its root is the first part, its namespace the '
  'second (none if there is only one) and it is its own root exactly if it has one part. URLs starting with http:// or '
  'https://, numbers and edges are classified as such and are never split, so that each is its own root; giving a new meaning extends only symbols '
  'that are roots.',
  ['inputs'], 'every symbol of every type, any number of parts',
  'tests try symbols of one and two parts', [SYM], [('parts/root/nspace/build/sym_type', SYM)])
p('Y04', 'Negation is an involution',
  'A symbol is negative exactly when it starts with a tilde; negating adds one leading tilde to a positive symbol and '
  'removes exactly one from a negative one. Negating an edge whose first element is a symbol negates that element and leaves '
  'every other element unchanged.',
  ['inputs'], 'every symbol and edge, including ones with tildes elsewhere', 'two symbols are tested',
  [SYM, EDGE], [('is_negative/negative', SYM)])
p('Y05', 'The edge text writer and reader agree',
  'The text form of an edge encloses in parentheses the text forms of all its elements in order, separated by single '
  'blanks, at every nesting level; the reader strips exactly one enclosing pair, splits exactly at the runs of blanks outside '
  'nested parentheses, and turns every element back into a value in order. Numbers are written in a notation that '
  'loses no digits and that the reader recognises as a number.',
  ['inputs'], 'every edge of every arity and depth', 'tests use edges of three elements nested at most once',
  [EDGE], [('edge2str/nodes2str', EDGE), ('str2edge/split_edge_str/parsed_token', EDGE)])
p('Y06', 'Reading a token never fails and never misreads a symbol as a number',
  'A token of edge text becomes an integer exactly if it consists of an optional leading minus sign and digits, a '
  'float exactly if it consists of an optional leading minus sign and digits around one decimal point, and stays a '
  'string in every other case; no token (short of the 4300 digits Python converts at most) makes the reader raise '
  'a conversion error.',
  ['inputs'], 'every token', 'tests read five number tokens and a few words', [EDGE], [('token_type/parsed_token', EDGE)])
p('Q01', 'Walks are simple and connect all seeds',
  'Every walk that the intersection query collects starts at the first seed, contains every seed, visits no vertex '
  'twice and only steps from a vertex to the ones it shares an edge with; exploring one continuation never alters '
  'another. The query returns exactly those edges of the two-step neighbourhoods of the seeds all of whose vertices '
  '(the connector apart) lie on a walk that is a shortest one for each of its vertices other than the seeds; edges '
  'with a very high-degree vertex (the connector apart) are left out from the start. A seed no edge is left for is no '
  'error.',
  ['inputs'], 'every graph and set of seeds', 'the query module has no tests', [Q], [('walks/intersect', Q)])
p('Q02', 'The ego network is the bounded neighbourhood',
  'The ego network of a vertex at depth n>0 is the set of edges of its star together with the ego networks at depth '
  'n-1 of every other vertex named by those edges; at depth 0 it is empty, and the search always ends.',
  ['inputs'], 'every vertex, depth and graph', 'the operation has no tests', [HG], [('ego', HG)])
p('Q03', 'No operation contains a guaranteed internal error',
  'No function of the package uses an undefined name, calls another one with arguments it does not accept, asks an '
  'object of the package for an attribute it cannot have, or applies an operation that the kind of value at hand '
  'never supports.',
  ['inputs', 'programs'], 'every function and every path', 'large parts of the package are never executed by the tests',
  ['gb'], [('all modules', 'gb')])
# ------------------------------------------------------------------ readers, nlp, knowledge, tools
p('W01', 'WordNet relations are recorded under their own name and source',
  'For every synset, each of the twelve lexical relations is recorded as a belief of the WordNet source, under the '
  'relation symbol of that name, from the lemma or synset it belongs to towards the related one; the synonyms and part '
  'of speech are recorded likewise. The import ends by flushing every buffered edge.',
  ['inputs'], 'every synset', 'the corpus is not available and the reader has no tests',
  ['gb/readers/wordnet.py'], [('process_synset', 'gb/readers/wordnet.py'), ('read', 'gb/readers/wordnet.py')])
p('W02', 'Symbols made from external text are well formed',
  'Every symbol that the text extractor or the WordNet reader makes out of a word or lemma has exactly the root and '
  'namespace it was given: no reserved character of the text (a slash, and for free text also parentheses and white '
  'space) survives into it.',
  ['inputs'], 'every word of every text, every lemma', 'no passing test covers the extractor or the reader',
  ['gb/readers/wordnet.py', 'gb/knowledge/stages/epsilon.py'], [('lemma2symbol', 'gb/readers/wordnet.py'), ('leaf_to_hyperedges', 'gb/knowledge/stages/epsilon.py')])
p('K01', 'Tree identifiers always denote their element',
  'In a semantic tree every identifier handed out is fresh, and looking up the identifier an element carries yields '
  'that same element, also after enclosing an element in a new node or dissolving a node; the identifier that used to '
  'denote the enclosed element then denotes the enclosing node.',
  ['histories'], 'every sequence of tree operations', 'trees are only used by tests that cannot run without a language model',
  [TREE], [('Tree.set/add/enclose/disenclose', TREE)])
p('K02', 'The alpha stage places every token exactly once',
  'Every token of the sentence tree, except punctuation, tokens without dependency label and what hangs from these, becomes '
  'exactly one leaf of the tree as read from its root, and no other leaf is in it.',
  ['inputs'], 'every dependency tree', 'the extractor tests cannot run here', ['gb/knowledge/stages/alpha.py', TREE],
  [('process_token/process_child_token', 'gb/knowledge/stages/alpha.py')])
p('K03', 'Extraction stages run in order on fresh state',
  'The extractor runs the configured stages in the configured order, gives each the output of the one before it, '
  'records one output per stage for the current sentence only, and returns the last output; every stage name selects '
  'the stage of that name, any other name is an error, and no tree is shared between sentences.',
  ['inputs', 'histories', 'configurations'], 'every sequence of sentences and every list of stages',
  'the extractor tests cannot run here', ['gb/knowledge/extractor.py'], [('read_sentence/create_stage', 'gb/knowledge/extractor.py')])
p('K04', 'The gamma stage drops nothing but articles',
  'Rewriting an element in the gamma stage returns an element that still contains everything it was given, except '
  'that a two-element node whose first element is a leaf with part of speech DET and lemma the, a or an is replaced '
  'by its second element.',
  ['inputs'], 'every tree', 'the extractor tests cannot run here', ['gb/knowledge/stages/gamma.py', TREE],
  [('process_entity1/combine_relationships', 'gb/knowledge/stages/gamma.py')])
p('K05', 'Namespaces are set everywhere and hyperedges mirror the tree',
  'The beta stage gives every element of the tree a namespace; the epsilon stage turns every leaf into one symbol of '
  'its word and namespace, every compound into one symbol of all its words in order joined by underscores, and every '
  'other node into a tuple with one entry per child in order.',
  ['inputs'], 'every tree', 'no test looks at the result of the last stage',
  ['gb/knowledge/stages/beta.py', 'gb/knowledge/stages/epsilon.py'], [('process_entity', 'gb/knowledge/stages/beta.py'), ('build_hyperedges', 'gb/knowledge/stages/epsilon.py')])
p('K06', 'Token trees keep sentence order and consistent links',
  "A token's list of tokens is its left children's lists, itself, then its right children's lists, each in order and "
  'each exactly once; words exclude exactly separators, punctuation and spaces. Every child made by the parser has the '
  'token it hangs from as its parent, and the same parser token always yields the same token object.',
  ['inputs'], 'every sentence', 'the parser cannot run here without a language model',
  ['gb/nlp/nlp_token.py', 'gb/nlp/parser.py'], [('to_list', 'gb/nlp/nlp_token.py'), ('__spacy2token', 'gb/nlp/parser.py')])
p('K07', 'The delta stage loses and duplicates no word',
  'In the tree the delta stage returns, read from its root, every leaf of the tree it was given occurs exactly once and there is '
  'no other.',
  ['inputs'], 'every tree', 'the extractor tests cannot run here', ['gb/knowledge/stages/delta.py', TREE],
  [('find_candidates/process_entity', 'gb/knowledge/stages/delta.py')])
p('K08', 'A printed sentence shows every token under its head',
  'Printing the tree of a sentence writes one line for each token below its root, even when several tokens read the same, in sentence order '
  'of the heads\' lists (left dependents, then right), each with its word, part of speech, label and entity type, marked as left or '
  'right dependent, and further in than its head; a sentence without a root prints no tree and does not fail. The text of a '
  'sentence is the words of all its tokens, without outer blanks, in order and joined by single spaces.',
  ['inputs'], 'every dependency tree', 'no test prints a sentence', ['gb/nlp/sentence.py', 'gb/nlp/nlp_token.py'],
  [('token2label_tree/print_tree', 'gb/nlp/sentence.py')])
p('K09', 'Tree elements are compared, searched, copied, flattened by structure',
  'Two elements are equal exactly if they have the same shape over tokens with equal word, part of speech and label, and different '
  'exactly otherwise; the leaves of an element are listed left to right; a part of speech or label is found exactly if some leaf '
  '(in a shallow search: some direct child that is a leaf) has it; a copy is equal to the original and shares no node with it; flattening '
  'keeps the leaves in order and dissolves exactly the nodes below that are not compounds; marking a node as compound marks all nodes below.',
  ['inputs'], 'every element', 'the tree has no tests of its own', [TREE], [('Node/Leaf', TREE)])
p('D01', 'The dump filter drops exactly the pages outside the main namespace',
  'Filtering a MediaWiki dump writes every line outside pages and every line of pages whose title contains no colon, '
  'unchanged (line ends aside), once and in order, and writes no line of any other page from its opening to its closing tag.',
  ['inputs'], 'every dump in which page and title tags are on their own lines', 'the script has no tests',
  ['python/filter_wikidump.py'], [('line state machine', 'python/filter_wikidump.py')])
# ------------------------------------------------------------------ declined
p('N01', 'Writing and reading an edge gives back the edge',
  'For every edge of two or more legal elements, reading its text form yields an equal edge.',
  ['inputs'], 'every edge', 'tests read six edges', [EDGE], [('edge2str/str2edge', EDGE)])
p('N02', 'The extractor produces the intended hyperedge',
  'For every English sentence the extracted hyperedge states what the sentence states.',
  ['inputs'], 'every sentence', 'eight sentences are listed, and need a language model', ['gb/knowledge'], [('stages', 'gb/knowledge/stages')])
p('N03', 'Concurrent writers keep the store consistent',
  'Two processes adding and removing edges in the same database never lose a degree update or an index entry.',
  ['schedules'], 'every interleaving of two clients', 'tests use one connection', [SQL], [('database transactions', SQL)])
p('N04', 'Identifiers do not collide',
  'Different texts receive different hash codes, and new meanings of the same root are always distinct.',
  ['inputs'], 'every pair of texts', 'one hash value is tested', [SYM], [('hashed/random_hash', SYM)])
p('N05', 'Distinct identifiers stay distinct in MySQL',
  'Two different vertices or index entries are never conflated by the MySQL tables, whatever their case or length.',
  ['inputs', 'configurations'], 'every pair of identifiers', 'the MySQL tests need a server', [MY], [('create_tables', MY)])
p('N06', 'Queries finish in reasonable time',
  'Indexing an edge and answering a query take time that stays acceptable as arity and graph size grow.',
  ['inputs'], 'every arity and graph size', 'tests use tiny graphs', [SQL, Q], [('nthperm', SQL), ('walks', Q)])
p('N07', 'The delta stage keeps the tree it explores intact',
  'Exploring candidate trees in the delta stage never alters the tree being explored, so that the outcome does not '
  'depend on the order in which candidates are generated.',
  ['inputs'], 'every tree', 'the extractor tests cannot run here', ['gb/knowledge/stages/delta.py'], [('find_candidates', 'gb/knowledge/stages/delta.py')])

ids = [x['id'] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x['title']) <= 80, x['title']
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, sort_keys=False) + '\n')
print(len(P), 'properties')
