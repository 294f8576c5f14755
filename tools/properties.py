#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where titles, statements and levels are edited)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, level_note=level_note))


prop('C01', 'levenshtein_distance is the exact Levenshtein distance of any two strings',
     'For any two strings, levenshtein_distance returns the minimum number of single-character insertions, deletions and substitutions turning one into the other, characters being code points (beyond the BMP included). It is symmetric, zero only for equal strings, obeys the triangle inequality, and neither leaks nor corrupts memory.',
     ['inputs'], 'every pair of strings, of any length and any script',
     'The tests compare a dozen of short pairs; affix trimming, storage kinds of strings and repeated letters interact only on particular pairs.',
     ['cfog/metrics/levenshtein.pyx'], [('affix trimming and single row dynamic program', 'cfog/metrics/levenshtein.pyx: levenshtein_distance')],
     'Extension rebuilt from the working tree; differential against a naive full matrix, metric axioms, allocation balance.')
prop('C02', 'Bounded Levenshtein variants agree with the true distances for every bound',
     'limited_levenshtein_distance(k, A, B) returns the Levenshtein distance when it is at most k and k + 1 otherwise, for every k. levenshtein_distance_lte1 and damerau_levenshtein_distance_lte1 return true exactly when the Levenshtein, respectively the (restricted) Damerau-Levenshtein, distance is at most 1; early exits neither leak nor corrupt memory.',
     ['inputs'], 'every pair of strings and every bound',
     'The tests sample a few pairs and bounds; the banded loop, its early exit and its length shortcut only show on particular combinations.',
     ['cfog/metrics/levenshtein.pyx'], [('banded dynamic program with early exit', 'cfog/metrics/levenshtein.pyx: limited_levenshtein_distance'), ('linear scans', 'cfog/metrics/levenshtein.pyx: levenshtein_distance_lte1, damerau_levenshtein_distance_lte1')],
     'Extension rebuilt from the working tree; differential against naive full matrices for bounds around the true distance.')
prop('C03', 'Set similarity metrics equal their definitions on any collections',
     'jaccard_similarity is |A∩B| / |A∪B|, dice_coefficient is 2|A∩B| / (|A|+|B|), overlap_coefficient is |A∩B| / min(|A|,|B|) and (sparse_)binary_cosine_similarity is |A∩B| / sqrt(|A||B|), over the sets of distinct elements of the collections given, whatever their types, order and repetitions. Each one is symmetric and lies between 0 and 1; two empty collections are left unspecified.',
     ['inputs'], 'every pair of collections (sequences, strings, sets, dicts, one-shot iterables)',
     'The tests sample a handful of pairs of strings or lists; which operand is smaller, repeated elements and container types are not varied.',
     ['fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py'],
     [('coercion to sets', 'fog/metrics/utils.py: ensure_set'), ('intersection iterating over the smallest side', 'fog/metrics/utils.py: intersection_size')],
     'Differential against exact rational definitions over every container type.')
prop('C04', 'Weighted vector metrics equal their definitions on any vectors',
     'cosine_similarity and sparse_cosine_similarity are the dot product over the product of the euclidean norms, sparse_dot_product, sparse_norm and sparse_normalize follow their algebraic definitions, and weighted_jaccard_similarity (non-negative weights) is the sum of minima over the sum of maxima. Missing dimensions count as null weights, metrics are symmetric, null vectors give a null similarity rather than an error, and inputs are left untouched.',
     ['inputs'], 'every pair of finite weighted vectors, missing and null weights included',
     'The tests sample a few vectors having the same kind of weights; null weights, disjoint supports and swapped sizes are not varied.',
     ['fog/metrics/cosine.py', 'fog/metrics/jaccard.py'], [('sparse vectors iterated from the smallest', 'fog/metrics/cosine.py'), ('single pass sums', 'fog/metrics/jaccard.py: weighted_jaccard_similarity')],
     'Differential against exact fractions, algebraic laws (scaling, symmetry, linearity).')
prop('C05', 'pairwise clusters are the connected components of the similarity graph',
     'With mode connected_components, pairwise yields exactly the connected components, of a size between min_size and max_size, of the graph linking similar items, each one once and each item once. This holds for any symmetric relation given as similarity or distance with or without radius (both inclusive), with or without a key, for any iterable of items (hashable or not, repeated or not) in any order.',
     ['inputs', 'configurations'], 'every finite collection and symmetric relation, every way of giving it',
     'The tests use one list of about twenty names and one relation.',
     ['fog/clustering/pairwise.py', 'fog/clustering/utils.py'], [('neighbor graph and depth first search', 'fog/clustering/pairwise.py: pairwise_connected_components'), ('meaning of similarity, distance & radius', 'fog/clustering/utils.py: make_similarity_function')],
     'Differential against a union-find model over generated relations; shuffling metamorphic relation.')
prop('C06', 'pairwise leader and fuzzy clusters follow their algorithms on any relation',
     'With mode leader, pairwise yields, for each item in order which is not already in a cluster, that item followed by the later unclustered items similar to it, so that clusters are disjoint. With mode fuzzy_clusters, each cluster is an item followed by all of the items similar to it, no cluster starts by an item of a previous cluster, and every item whose neighborhood has a viable size is in some cluster; in both cases sizes lie between min_size and max_size.',
     ['inputs', 'configurations'], 'every finite collection and symmetric relation, every way of giving it',
     'The tests use one list of names and one relation, on which the three modes hardly differ.',
     ['fog/clustering/pairwise.py'], [('leader pass', 'fog/clustering/pairwise.py: pairwise_leader'), ('neighborhoods & visited set', 'fog/clustering/pairwise.py: pairwise_fuzzy_clusters')],
     'Differential against a reference leader algorithm, validity predicate for fuzzy clusters.')
prop('C07', 'The number of processes, chunking and completion order never change clusters',
     'pairwise, blocking and quickjoin yield with several processes the same connected components, over the same items, as with a single one, and fuzzy clusters meeting the same definition (those of pairwise do not depend on the order of completion). This holds for any chunk size and any order in which the workers complete.',
     ['schedules', 'configurations', 'inputs'], 'every number of processes, chunk size, completion order and dataset',
     'The tests run one dataset with two processes; chunk boundaries and completion orders are whatever happened.',
     ['fog/clustering/pairwise.py', 'fog/clustering/blocking.py', 'fog/clustering/quickjoin.py', 'fog/clustering/utils.py'],
     [('chunks of the upper triangular matrix', 'fog/clustering/utils.py: upper_triangular_matrix_chunk_iter'), ('unordered pool results', 'fog/clustering/pairwise.py')],
     'Simulated pool whose completion order is generated (schedules), plus real processes.')
prop('C08', 'passjoin finds exactly the pairs of strings within Levenshtein distance k',
     'For any set of distinct strings, any k >= 0 and the Levenshtein distance, passjoin yields exactly the clusters (connected components or fuzzy clusters) that comparing every pair of strings would give. This includes strings shorter than k, the empty string, unsorted and already sorted data. The k + 1 segments of a string partition it evenly, at least one of them is among the substrings selected in any string within distance k, and no more substrings are selected than count_substrings_l announces.',
     ['inputs', 'configurations'], 'every finite set of strings and every k',
     'The tests check one list of strings at k 1 to 3; a missing segment or selection window only loses particular pairs.',
     ['fog/clustering/passjoin.py'], [('even partition in k + 1 segments', 'fog/clustering/passjoin.py: segments'), ('multi-match-aware substring selection', 'fog/clustering/passjoin.py')],
     'Differential against exhaustive comparison over families of near duplicates.')
prop('C09', 'all_pairs, ppjoin and ppjoin_plus find exactly the pairs above the threshold',
     'For any collection of records, metric (jaccard, dice or binary cosine) and positive threshold, all_pairs, ppjoin and ppjoin_plus yield each pair of records whose similarity reaches the threshold exactly once, and no other pair. The result does not depend on the token ordering nor on the tokenizer being given apart, repeated tokens in a record count once, empty records match none, and records are left untouched.',
     ['inputs', 'configurations'], 'every collection of records, metric, threshold and token ordering',
     'The tests run one list of strings at a few thresholds; prefix, size and positional filters lose pairs only at exact boundaries.',
     ['fog/clustering/ppjoin.py'], [('prefix, size, positional and suffix filtering', 'fog/clustering/ppjoin.py')],
     'Differential against exhaustive comparison, thresholds drawn on exact similarities.')
prop('C10', 'quickjoin and vp_tree agree with exhaustive comparison in any metric space',
     'For distinct items and any true metric (or a similarity which is one minus such a metric), quickjoin yields exactly the clusters that comparing every pair would give, whatever the seed, block size, window partitioning and use of vantage point trees. vp_tree yields, for the successive items not already in a cluster, all of the items within the radius, when there are a viable number of them.',
     ['inputs', 'configurations'], 'every finite metric space, radius, seed and block size',
     'The tests use one list of names, mostly smaller than the block size, so that partitioning hardly happens.',
     ['fog/clustering/quickjoin.py', 'fog/clustering/vp_tree.py'], [('ball partitioning and windows', 'fog/clustering/quickjoin.py: partition'), ('triangle inequality pruning', 'fog/clustering/vp_tree.py')],
     'Differential against exhaustive comparison over generated metric spaces, tiny blocks.')
prop('C11', 'intersection_index clusters exactly the pairs of documents above the radius',
     'For any collection of documents, metric (jaccard or overlap coefficient) and positive radius, intersection_index yields exactly the clusters (connected components or fuzzy) obtained by comparing every pair of documents, tokens being those of the items themselves or given by the key. Repeated tokens count once, and empty documents are similar to none.',
     ['inputs', 'configurations'], 'every collection of documents, metric and radius',
     'The tests use one small dataset and one radius per metric.',
     ['fog/clustering/intersection_index.py'], [('inverted index & counted intersections', 'fog/clustering/intersection_index.py')],
     'Differential against exhaustive comparison, radii drawn on exact similarities.')
prop('C12', 'blocking and key_collision cluster exactly the items sharing blocks or keys',
     'blocking yields exactly the clusters of the graph linking the pairs of items which share at least one block and are similar. key_collision yields exactly the groups of items having a same key or, with merging, the connected components of items sharing a key; items without key are left out, an item giving a key twice does not collide with itself, and sizes lie between min_size and max_size.',
     ['inputs', 'configurations'], 'every assignment of blocks and keys to items, every symmetric relation',
     'The tests use a list of names and a couple of keyers.',
     ['fog/clustering/blocking.py', 'fog/clustering/key_collision.py', 'fog/clustering/utils.py'], [('buckets and clusters from them', 'fog/clustering/utils.py: clusters_from_buckets'), ('key index', 'fog/clustering/key_collision.py')],
     'Differential against a reference over generated assignments and relations.')
prop('C13', 'Sorted neighborhood compares exactly the items within the window of each pass',
     'sorted_neighborhood yields exactly the clusters of the graph linking similar items which are less than window positions apart once sorted by the key, or by at least one of the keys when there are several passes. adaptive_sorted_neighborhood does so within successive disjoint windows which start at the given size, are enlarged as long as their first and last items are similar, then retrenched to the last item similar to the one before it, without missing the last records nor failing near them. One-shot iterables are handled by every pass.',
     ['inputs', 'configurations'], 'every collection, sort keys (ties included), window and symmetric relation',
     'The tests run one list of names with one window; ends of the data and several passes are not varied.',
     ['fog/clustering/sorted_neighborhood.py'], [('sliding window over sorted data', 'fog/clustering/sorted_neighborhood.py: sorted_neighborhood'), ('enlarging and retrenching windows', 'fog/clustering/sorted_neighborhood.py: adaptive_sorted_neighborhood')],
     'Reference model (plain) and sound/complete bounds (adaptive) over generated relations.')
prop('C14', 'minhash and nn_descent never link dissimilar items and are reproducible',
     'minhash and nn_descent yield clusters connected by pairs of items whose actual similarity reaches the radius (or whose distance is within it), identical for a same seed and data. minhash always gathers items having the same tokens and, but for a negligible probability, the similar ones its banding cannot miss, the number of bands being by default the smallest one whose similarity threshold is not over the radius. nn_descent (and its full variant) terminates without failing on any number of items and finds every similar pair when k is at least the number of other items, and nearly all the items having a near neighbor in spaces of low dimension.',
     ['inputs', 'configurations'], 'every collection, symmetric similarity, seed and parameters',
     'The tests check one dataset and one seed.',
     ['fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', 'fog/lsh/minhash.py'], [('bands of signatures', 'fog/clustering/minhash.py'), ('neighbor heaps and local joins', 'fog/clustering/nn_descent.py')],
     'Soundness and reproducibility predicates, probability bounds for required pairs.')
prop('C15', 'Levenshtein keys and blocks never separate strings that are close enough',
     'Two strings within Levenshtein (respectively restricted Damerau-Levenshtein) distance 1, or 2 for the 2d variants, always share at least one of their levenshtein (respectively damerau_levenshtein) keys or blocks, whatever their lengths, the empty string included. Clustering by those keys or blocks therefore misses no such pair; one character inserted between two equal letters is a listed exception of the 1d keys.',
     ['inputs'], 'every pair of strings within the radius',
     'The tests check the keys of a few strings and a few pairs; which edit at which position is lost depends on lengths and repeated letters.',
     ['fog/key/levenshtein.py'], [('deletion, substitution, addition & transposition keys', 'fog/key/levenshtein.py: *_1d_keys'), ('pigeonhole blocks', 'fog/key/levenshtein.py: *_blocks')],
     'Generated edits; oracle is the existence of a common key; known finding excluded.')
prop('C16', 'Fingerprints are the sorted distinct normalised tokens of any text',
     'The fingerprint of a text is the sorted list of its distinct words once lowercased, transliterated to ascii and stripped of punctuation and control characters, and the ngrams fingerprint the sorted distinct ngrams of the text so normalised, without spaces. Variants of a text by word order, repetition, case, accents, punctuation or spacing therefore have the same fingerprint, and options (stopwords, digits, min_token_size, split, squeeze) filter or change tokens only as documented.',
     ['inputs', 'configurations'], 'every text and combination of options',
     'The tests check a few sentences; unidecode outputs, exotic spaces and interactions of options are not varied.',
     ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py'], [('normalisation pipeline', 'fog/tokenizers/fingerprint.py'), ('joined sorted tokens', 'fog/key/fingerprint.py')],
     'Differential against a reference pipeline, variants as metamorphic relations.')
prop('C17', 'Omission, skeleton and ngram keys and ngrams equal their definitions',
     'omission_key and skeleton_key are respectively the distinct consonants in the published omission order followed by the distinct vowels in order of occurrence, and the first letter followed by the distinct other consonants then distinct other vowels in order of occurrence, over transliterated uppercase letters. ngrams, bigrams, trigrams and quadrigrams yield every contiguous run of n items once per position and in order, or the sequence itself when it is shorter. ngram_keys gives the joined ngrams of the string and of each of their subsequences having at least the given share of them, and zig_zag the string and its reverse.',
     ['inputs'], 'every string or sequence, every n and threshold',
     'The tests check the examples of the papers; repeated letters, short strings and other scripts are not varied.',
     ['fog/key/omission.py', 'fog/key/skeleton.py', 'fog/key/misc.py', 'fog/tokenizers/ngrams.py'], [('letter orders', 'fog/key/omission.py, fog/key/skeleton.py'), ('sliding windows', 'fog/tokenizers/ngrams.py')],
     'Differential against independent references.')
prop('C18', 'Phonetic codes follow their published rules for every name',
     'cologne returns the Kölner Phonetik code of any word: digits only, no two consecutive identical digits, zeros only at the start, letters coded by the published table according to their neighbors, insensitive to case. rusalka never fails, returns a code following its rules in order, and gives the same code to spellings differing only by what the rules merge.',
     ['inputs'], 'every word, of any case, script and length',
     'The tests check the published examples; contexts at the start, end and around C, D, T, P and X combine otherwise.',
     ['fog/phonetics/cologne.py', 'fog/phonetics/rusalka.py'], [('context table', 'fog/phonetics/cologne.py'), ('ordered rewriting rules', 'fog/phonetics/rusalka.py')],
     'Differential against independent implementations of the tables.')
prop('C19', 'LSH signatures depend on the set of tokens only and estimate similarity',
     'MinHash, LSBMinHash and SuperMinHash signatures depend only on the set of tokens, seed and parameters (not on order, repetition, process or numpy being used), the MinHash signature of a union is the element-wise minimum, every position (and bit, for LSBMinHash) is a hash of its own, different tokens (accents included) hash differently, and the similarity of two signatures estimates the jaccard similarity of the sets within sampling error. simhash depends only on the bag of tokens and f (a power of two up to 512, other sizes being refused), and simhash distance and similarity count differing bits exactly.',
     ['inputs', 'configurations'], 'every token set, seed and number of hashes',
     'The tests check a few fixed signatures and estimates.',
     ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py'], [('universal hashing of crc32', 'fog/lsh/minhash.py'), ('popcounts', 'fog/lsh/utils.py')],
     'Metamorphic relations, statistical bounds at 7.5 standard deviations, cross-process runs.')
prop('C20', 'hashjoin yields exactly the pairs of items sharing a key, once each',
     'hashjoin yields every pair made of an item of the left side and an item of the right side sharing at least one key, exactly once and in left, right order, and no other pair. This holds whatever the relative sizes of the sides, their types (one-shot iterators included) and the number of keys of each item.',
     ['inputs', 'configurations'], 'every pair of collections and assignment of keys',
     'The tests join two small lists.',
     ['fog/join/hashjoin.py'], [('index of the smallest side', 'fog/join/hashjoin.py: hashjoin')],
     'Differential against a nested loop join.')
prop('C21', 'best_matching_macro_average scores and label conversions are exact',
     'best_matching_macro_average returns the macro averages, over the clusters of the truth, of the precision, recall and F1 of the predicted cluster best matching each one, ignoring additional items when allowed (ties may go to either cluster). Empty inputs or clusters, overlapping predicted clusters, missing items and additional items when not allowed raise a TypeError instead of being scored. Conversions between labels and clusters keep every item, group items by equal label in order of appearance, and are inverse of each other.',
     ['inputs', 'configurations'], 'every pair of partitions, in every accepted form',
     'The tests check one example of a paper.',
     ['fog/evaluation/best_matching.py', 'fog/evaluation/utils.py'], [('candidate clusters per truth cluster', 'fog/evaluation/best_matching.py')],
     'Differential against exact fractions; ties accepted either way.')
prop('C22', 'monopartite_projection equals the definition of each projection metric',
     'monopartite_projection returns a graph holding every node of the projected part with its attributes and exactly the edges between nodes having a common neighbor whose similarity (jaccard, overlap, dice, cosine, binary_cosine or, by default, the number of common neighbors) reaches the threshold if any, weighted by that similarity. The two strategies agree, the given graph is left untouched, and graphs that are not bipartite raise a TypeError.',
     ['inputs', 'configurations'], 'every bipartite graph, metric, threshold and strategy',
     'The tests project one small graph.',
     ['fog/graph/projection.py'], [('two-hop traversal with each pair seen once', 'fog/graph/projection.py')],
     'Differential against a definition-based projection.')
prop('C23', 'floatsam_sparsification terminates with a threshold meeting its definition',
     'floatsam_sparsification always terminates and returns the last threshold, reached from the starting one by steps of the learning rate, before the graph trimmed of the edges lighter than it has a second largest component of at least the maximum drifter size, or no edge left. The graph is left untouched, but for the removal of exactly the edges lighter than the threshold when asked to. component_sizes and second_largest_component_size are those of the graph restricted to the edges passing the filter.',
     ['inputs', 'configurations'], 'every weighted graph, starting threshold, learning rate and drifter size',
     'The tests run one graph.',
     ['fog/graph/sparsification.py', 'fog/graph/utils.py'], [('threshold loop', 'fog/graph/sparsification.py'), ('component traversal with edge filter', 'fog/graph/utils.py')],
     'Reference loop and union-find; CPU watchdog for termination.')
prop('C24', 'WordTokenizer loses nothing, keeps order and types entities properly',
     'The tokens of any text occur in it in order, are not empty and hold no white space, and leave out only white space, control characters and the hyphens of French inversions. Words, numbers of several digits, hashtags, mentions, urls, emails, emojis, smileys, acronyms, abbreviations, contractions, elisions and punctuation separated by white space each give their own typed tokens, and texts separated by white space are tokenized independently.',
     ['inputs'], 'every text',
     'The tests check about sixty sentences; each character class is reached after only a few others.',
     ['fog/tokenizers/words.py'], [('character by character scanner', 'fog/tokenizers/words.py: WordTokenizer.tokenize')],
     'Losslessness predicate, generated entities with known tokens, concatenation relation.')
prop('C25', 'Options of WordTokenizer change tokens only as documented',
     'With any combination of options (keep and drop filters, lower, unidecode, reduce_words, stoplist, min and max word length, html unescaping, normalisation, conversion to words or splitting of mentions and hashtags), the tokens are those of the default tokenizer over the text, transformed and filtered as documented and nothing else. Splitting a hashtag loses no character and follows its case and digit changes, and invalid combinations raise a TypeError.',
     ['inputs', 'configurations'], 'every text and combination of options',
     'The tests check options one at a time on a few sentences.',
     ['fog/tokenizers/words.py'], [('filters and transformations', 'fog/tokenizers/words.py: WordTokenizer.__call__'), ('hashtag splitting', 'fog/tokenizers/words.py: split_hashtag')],
     'Differential against the default tokenizer followed by a reference filter.')
prop('C26', 'fog split and fog transform change the target column and nothing else',
     'fog split writes one row per value of the split cells of the target column, and fog transform the column transformed by the chain of operations (in place or in a new column), every other cell, row and header being written back identical and in order. This holds for any cell content (separators, quotes, newlines, accents, empty), any target column and any combination of options, through files as well as standard streams.',
     ['inputs', 'configurations'], 'every CSV file and combination of options',
     'No test runs these commands.',
     ['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py', 'fog/cli/__main__.py'], [('row by row rewriting', 'fog/cli/split.py, fog/cli/transform.py')],
     'Differential against a reference over generated CSV files; a share through real processes.')
prop('C27', 'fog cluster reports hold exactly the clusters of the column',
     'fog cluster writes a TOML report which any parser reads back into exactly the groups of different values of the column having a same fingerprint, each with its values, numbers of rows, most frequent value as harmonized one, and exact statistics, the time spent clustering included. The HTML report shows the same clusters and statistics, and no value, whatever its characters, changes the structure of either report.',
     ['inputs', 'configurations'], 'every CSV file, every value in the column, both kinds of reports',
     'No test runs this command.',
     ['fog/cli/cluster.py', 'fog/cli/reporting/toml.py', 'fog/cli/reporting/html.py'], [('grouping of rows and clustering', 'fog/cli/cluster.py'), ('escaping', 'fog/cli/reporting/')],
     'Round trip through independent parsers (tomllib, html.parser) against a reference clustering.')
prop('C28', 'OnlineMean and squeeze are exact over any history or string',
     'An OnlineMean is, after any history of additions, subtractions and merges (in place or not, with itself included), the mean and the number of the values added and not subtracted; merging leaves the merged one untouched and the mean of nothing raises. squeeze keeps exactly one character of each run of a repeated character, or all of the I, X, C and M (any case) when asked to keep roman numerals.',
     ['histories', 'inputs'], 'every history of operations; every string',
     'The tests check a few additions and one string.',
     ['fog/utils.py'], [('sum and count', 'fog/utils.py: OnlineMean'), ('regular expressions', 'fog/utils.py: squeeze')],
     'Stateful model-based testing against exact fractions; reference grouping.')
prop('C29', 'laesa agrees with exhaustive comparison in any metric space',
     'For distinct items and any true metric, laesa yields exactly the clusters (connected components or fuzzy) that comparing every pair of items would give, whatever the number of pivots and the seed. It prints nothing and handles no item or a single one.',
     ['inputs', 'configurations'], 'every finite metric space, radius, number of pivots and seed',
     'No test runs this function.',
     ['fog/clustering/laesa.py'], [('pivot selection and triangle inequality pruning', 'fog/clustering/laesa.py')],
     'Differential against exhaustive comparison over generated metric spaces.')
prop('C30', 'Invalid arguments raise a TypeError whatever the data',
     'Whatever the items and other options, an unknown mode, metric or token ordering, a tokenizer which is not callable, or giving neither a similarity nor a distance makes the clustering functions (and an unknown metric makes monopartite_projection) raise a TypeError, at the latest when their results are consumed. They never yield clusters made with another mode, metric or relation instead.',
     ['inputs', 'configurations'], 'every collection of at least two items and every function taking such an argument',
     'The tests check one or two invalid arguments of a few functions.',
     ['fog/clustering/utils.py', 'fog/clustering/pairwise.py', 'fog/clustering/ppjoin.py', 'fog/clustering/intersection_index.py', 'fog/graph/projection.py'], [('argument validation', 'fog/clustering/utils.py: make_similarity_function, clusters_from_pairs'), ('metric and ordering validation', 'fog/clustering/ppjoin.py: ppjoin')],
     'Generated invalid calls; the only accepted outcome is a TypeError.')
prop('C31', 'Calls are independent of each other and leave the given data untouched',
     'The results of a clustering function, join or tokenizer do not depend on other calls made before or in progress at the same time, on previous iterators having been abandoned, nor on what the caller does of the clusters already yielded. Given lists are left as they were, order included, and clusters are lists of the given items themselves.',
     ['histories', 'schedules'], 'every history of interleaved calls, partial consumptions and changes of yielded clusters',
     'The tests run each function once, to its end, on data they do not look at afterwards.',
     ['fog/clustering/pairwise.py', 'fog/clustering/utils.py', 'fog/clustering/passjoin.py', 'fog/clustering/sorted_neighborhood.py', 'fog/clustering/key_collision.py', 'fog/join/hashjoin.py', 'fog/tokenizers/words.py', 'fog/tokenizers/ngrams.py'], [('local state of generators', 'fog/clustering/')],
     'Stateful histories over several iterators against the same calls run alone.')
prop('C32', 'Fagin algorithms find the nearest vectors, candidate pairs are exact',
     'For any list of sparse vectors of positive weights, threshold_algorithm_k1 yields, for each vector in order, one of the other vectors of highest cosine similarity to it, or itself if it shares no dimension with any other. Candidates yielded by fagin_k1 for a vector include such a nearest one, and naive_cosine_pairs yields each pair of vectors sharing a dimension exactly once. sqrt_indexation_pairs yields each vector with a most similar one among at most sqrt(n) leaders, and each pair of vectors having the same leader once.',
     ['inputs'], 'every list of sparse vectors',
     'No test runs these functions.',
     ['fog/clustering/fagin.py'], [('early termination of sorted accesses', 'fog/clustering/fagin.py')],
     'Differential against exhaustive cosine similarities.')
prop('C33', 'Options left out take their documented defaults, by keyword or by position',
     'Calling any function or tokenizer without some of its options gives the same result as giving them their documented defaults (min_size 2, unbounded max_size, connected components, window 10, radius 0.8, 256 hashes, and so on), and arguments given by position in the documented order give the same result as by keyword. This holds over any data.',
     ['inputs', 'configurations'], 'every function having options, any data and any subset of the options',
     'The tests call each function with a few options, over data whose result seldom depends on the ones left out.',
     ['fog/clustering/', 'fog/key/', 'fog/lsh/', 'fog/tokenizers/', 'fog/graph/', 'fog/evaluation/'], [('signatures of the public functions', 'fog/clustering/*.py, fog/key/*.py, fog/lsh/*.py, fog/tokenizers/*.py, fog/graph/*.py')],
     'Metamorphic: results with options left out, given explicitly, or given by position, over data telling option values apart.')
prop('C34', 'Exceptions raised by given functions or iterables reach the caller',
     'When a function given by the caller (similarity, distance, key, keys, block, blocks, tokenizer) or the iterable given raises an exception, whatever its type and whichever call raises it, this very exception reaches the caller consuming the results, be it raised in this process or in another one. It is never swallowed nor turned into missing or different clusters, and the same call made afterwards without the fault gives its usual result.',
     ['inputs', 'histories', 'schedules'], 'every function taking functions or iterables, every exception type and every call at which it is raised',
     'No test gives a function which fails.',
     ['fog/clustering/', 'fog/join/hashjoin.py', 'fog/evaluation/utils.py', 'fog/tokenizers/ngrams.py'], [('calls of the given functions', 'fog/clustering/*.py, fog/join/hashjoin.py'), ('results of workers', 'fog/clustering/pairwise.py, fog/clustering/blocking.py, fog/clustering/quickjoin.py')],
     'Fault injection at a generated call of a generated function, in this process, in simulated ones and in real ones.')

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict((k, v) for k, v in p.items() if k != 'level_note'), ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': [{
            'property': p['id'],
            'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % p['id'],
            'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % p['id'],
            'technique': 'property-based testing (generated cases, shrinking, coverage-guided mutation)',
            'level': 'exploration',
            'level_note': p['level_note']
        } for p in P],
        'not_applicable': []
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
