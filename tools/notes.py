"""Technique and level note per claimed property; reasons for the others."""
AI = 'abstract interpretation (interprocedural, path-sensitive effect graph)'
TECH = {
    'S01': (AI + ' with string-template provenance of every statement text',
            'Every statement text that any storage operation can execute is computed as a template; any hole fed by an argument or a row is a violation. '
            'Sound for the code reached from the listed drivers as far as the interpreter models it; what it cannot follow is listed as undecided.'),
    'S02': (AI + ' plus SQL template parsing checked against the schema derived from the CREATE/ALTER statements',
            'Marker style, marker/value counts, tables, columns and defaults of every statement template on both backends. The SQL grammar covered is the '
            'subset parsed by gbsa/sqlp.py.'),
    'S03': (AI + ' with a written/committed typestate', 'On every abstract path from a write to a successful return there is a commit after it.'),
    'S04': (AI + ' with transaction typestate and fault edges',
            'Every path, including those on which any database call fails, is checked for commits in the middle and for writes left behind without rollback. '
            'Assumes the drivers begin transactions as documented (sqlite3 legacy mode, MySQLdb autocommit unless begin is issued).'),
    'S05': (AI + ' with cursor typestate', 'Cursor open/close typestate on all paths of every operation, inside and outside a batch, including nested batches.'),
    'S06': (AI + ' as effect analysis', 'No write statement and no commit is reachable from any query operation.'),
    'S08': (AI + ' with a row typestate per element',
            'One turn of the loop over the elements with the row present or absent, value of the degree column before and after; other operations write no degree.'),
    'S09': (AI + ' with guard dominance', 'Every write of add/remove happens only under the outcome of an index lookup for the same edge made after other edges were written.'),
    'S10': (AI + ' with a row typestate and value tracking through the facade layers', 'Timestamp column of each row introduced or already present, and of forwarded adds.'),
    'S07': (AI + ' with symbolic edges of bounded shape and contracts for the text functions',
            'Index entries written and removed are compared with all permutations for every edge shape up to 4 elements (5 and nested shapes in the thorough tier), '
            'and the decoder is inverted on each entry. Element texts are opaque symbols, so the result holds for every element; lengths beyond the bound are not covered.'),
    'S11': (AI + ' with range-bound derivation over string templates and symbolic index contents',
            'Bounds of every index scan are derived from the source for any looked-up entity; results are additionally computed on symbolic indexes with look-alike edges.'),
    'S12': (AI + ' with range-bound derivation over string templates and symbolic index contents',
            'All wildcard masks of patterns up to length 3 (4 thorough) on symbolic indexes, plus bounds and cut-offs for patterns of unknown length.'),
    'S13': (AI + ' with table effect sets and query templates', 'Tables swept or cleared by f_all and destroy, columns delivered, on every path.'),
    'F01': (AI + ' with call traces on a stand-in store', 'Every path of every facade operation, called positionally, by keyword and with defaults: the exact calls on '
            'the store, their arguments and what is returned.'),
    'F03': (AI + ' with call traces on a stand-in store', 'Which edges, in which order, with which timestamps are asked of the store by add_belief, for single and multiple edges.'),
    'F04': (AI + ' with call traces on a stand-in store', 'Which edges remove_belief removes and under which query outcomes, per edge.'),
    'F05': (AI + ' with call traces on a stand-in store', 'Buffered adds: what is held back, what each flush passes on, and reads seeing the buffered edges; loops are summarised per element.'),
    'F02': ('class-member resolution over the syntax trees, and ' + AI + ' of the null backend', 'Every operation of every leaf class below Backend: presence, parameters, defaults. '
            'Null backend: effects and answers against those of the SQL backends when no row is found.'),
    'F06': (AI + ' with constant propagation of names and dataflow of settings', 'Every advertised name, an arbitrary other name, and each command with each backend: the class made and the '
            'source of every connection argument.'),
    'F07': (AI + ' with the one-or-several test inlined, on symbolic arguments of bounded shape', 'Ten shapes of one edge and seven of several edges (more in the thorough tier), '
            'nesting up to three deep, atoms symbolic strings or numbers. Larger shapes are not covered.'),
    'Y01': ('effect analysis over the call graph of the symbol and edge functions, and ' + AI + ' of call sequences',
            'Every name each function refers to, every write it makes, every traversal of a set; list arguments of several shapes are compared before and after, results after other '
            'calls with results alone. A table of results keyed by text is left undecided.'),
    'Y02': (AI + ' over a character-class string domain', 'Every text of one or two characters over 25 character classes and literal characters (all reserved characters, every kind of '
            'white space, letters, digits, foreign letters) and longer ones over the critical classes. Runs of 260 reserved characters, texts like URLs and numbers, characters whose other forms are longer, capital or reserved are added; other long texts are not enumerated.'),
    'Y03': (AI + ' over a character-class string domain', 'Symbols of up to four parts (and of 5 to 40 equal ones) over parts of every class, URLs and near-URLs, numbers of any value, edges. Hashes are opaque.'),
    'Y04': (AI + ' over a character-class string domain', 'Symbols up to five characters with tildes at every position and some of 150; edges of every kind of element, and of 31. Other long texts are not enumerated.'),
    'Y05': (AI + ' over a character-class string domain', 'Edges of every shape up to four elements and nesting up to four levels (more in the thorough tier), some of 42 elements and 16 levels, '
            'leaves known by class or wholly unknown; the notation of floats is judged by the call that produces it.'),
    'Y06': (AI + ' over a character-class string domain', 'Every token up to five characters over the classes that matter for numbers, and selected longer ones, in several positions of an edge.'),
    'D01': (AI + ' over a character-class string domain, the dump being lines of known kind and unknown letters',
            'Every well-formed order of line kinds up to 8 lines (10 in the thorough tier) plus every spelling of every line in one dump of two pages: '
            'the script is a loop over lines with a finite control state and one buffer, so short dumps reach every state and every transition. Long dumps, odd titles and the way the dump is opened are checked as well.'),
    'Q03': ('Name resolution, import and attribute checks over the syntax tree of every module, and ' + AI.lower() + ' from every function with unknown arguments',
            'An error counts when the construct fails for every value it can have on the paths followed (a construct that works for some values is not '
            'reported). Attributes of objects of other packages are not checked.'),
    'Q01': (AI + ' over model stores, with an independent set-of-walks specification',
            'Eleven model graphs, nine choices of seeds. The code only compares vertices for equality and asks for their degree, so a model graph stands for all graphs '
            'of its shape; larger shapes are not covered.'),
    'Q02': (AI + ' over model stores, and the recursion bounded by the interpreter',
            'Ten model graphs, four centres, depths 0 to 3 (5 in the thorough tier). Vertices are only compared for equality; larger shapes are not covered.'),
    'W01': (AI + ' of the reader over a stand-in corpus', 'Some forty small corpora in which each relation, part of speech and lemma position occurs alone and together, against an independent '
            'list of the edges; the names of synsets and lemmas are fixed. Larger corpora are covered only as far as the reader treats synsets one by one.'),
    'W02': (AI + ' over a character-class string domain', 'Every word of one character over 20 character classes and reserved characters, longer ones over the reserved ones (up to three, four in the thorough tier), '
            'as a leaf, within a compound, and as a lemma or synset name.'),
    'K01': (AI + ' of sequences of tree operations, against an independent model of the table of elements', 'All sequences of up to 3 operations (4 in the thorough tier) on a tree of two leaves and a node. '
            'Elements are told apart by identifier only, so the words do not matter; longer sequences are not covered.'),
    'K02': (AI + ' with words, lemmas, entity types and dependency labels unknown', 'Every dependency tree of up to 3 tokens with any dependency labels, a regular sample of those of 4 (all, and a sample of 5, in the thorough tier) with '
            'labels of every class. Words are any strings. Larger sentences are not covered.'),
    'K03': (AI + ' with the stages replaced by terms of what they are given', 'Every order of stages up to length 3 and selected longer ones, one to three sentences in one and several calls, and every other stage name.'),
    'K04': (AI + ' with words and all other attributes unknown, except part of speech and lemma classes', 'Every tree of up to 3 leaves over five classes of leaf, a regular sample of larger ones up to 6 leaves, wide and deep ones.'),
    'K05': (AI + ' over trees of bounded shape, with an independent construction of the hyperedge', 'Every tree of up to 4 leaves and a sample up to 6, every choice of one compound; namespaces with the attributes of all tokens unknown up to 3 leaves.'),
    'K06': (AI + ' with a stand-in language model', 'Every dependency tree of up to 4 tokens and a sample of 5; sentences of up to 4 tokens for the parser; every special part of speech at every position; tokens with missing attributes and documents with odd sentence boundaries.'),
    'K08': (AI + ' with a stand-in tree renderer', 'Every dependency tree of up to 5 tokens (6 in the thorough tier, a sample of 6 in the quick one), with distinct words and with all tokens the same; sentences with blank, empty or repeated words.'),
    'K09': (AI + ' over elements of bounded shape, against an independent specification of each operation', 'Every element of depth and width up to 2 with every choice of compounds, two larger ones, and every pair of the former '
            '(a third of the pairs of different shape in the quick tier), tokens equal or differing in one respect at one place; compound marks and elements with many children.'),
    'K07': (AI + ' with words unknown', 'Every tree of up to 4 leaves with all attributes but the class of relationship unknown, samples up to 6 leaves. Larger trees are not covered.'),
}
NA = {
    'N01': 'Equality of a value with what two recursive functions over unbounded nested text compute together; no invariant in reach of dataflow or types '
           'decides it for symbols with arbitrary characters. The clauses of writer and reader that are static are S11, S12, Y05 and Y06.',
    'N02': 'Quantifies over the meaning of English sentences; there is nothing in the source to decide it against.',
    'N03': 'Depends on the isolation the database server gives at run time; the source contains no locking that could be analysed.',
    'N04': 'A statement about probabilities of hash and random values, not about the code.',
    'N05': 'Depends on the collation and index-length behaviour of the connected MySQL server, which the source does not determine.',
    'N06': 'Running time quantifies over runtime sizes and hardware; the factorial cost is inherent in the design.',
    'N07': 'Which candidate wins is a matter of a scoring heuristic, and the exploration shares and rewrites nodes of the tree by design; what can be said of every outcome is K07.',
}
