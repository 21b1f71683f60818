"""Texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from them.

Per property: (title, statement, over, quantifier text, why tests can't, files, mechanisms, rule)."""

PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, rule, na=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule, na=na)


prop('C01', 'One document per text, holding that text\'s sentences and tuples in order',
     'Running the pipeline on a list of texts returns exactly one document per text, in the order of the texts. Each document '
     'holds one sentence per (kept) sentence of its own text, in text order, and each sentence holds exactly the tuples extracted '
     'from that sentence. No text, sentence or tuple is lost, duplicated or attributed to another text, including for empty lists, '
     'texts without sentences and texts whose sentences were resplit or dropped.',
     ['inputs', 'configurations'], 'every list of texts (any number, any number of sentences per text), every batch size, core count and chunking option',
     'The pipeline cannot be instantiated in the test environment (models are not in the repository); the tests check single labelled sentences.',
     ['scrappybara/pipeline/pipeline.py', 'scrappybara/pipeline/logic_pipeline.py', 'scrappybara/pipeline/document.py', 'scrappybara/pipeline/sentence.py'],
     [('Pipeline.__call__: sentence ranges per text, regrouping', 'scrappybara/pipeline/pipeline.py'),
      ('LogicPipeline._logic_process', 'scrappybara/pipeline/logic_pipeline.py'), ('Parser.__call__', 'scrappybara/syntax/parser.py')],
     'the value of the pipeline call, as a function of the texts, of the stage functions and of the configuration, equals the specification: '
     'text i gives document i, whose sentences are the image of the sentences of text i')

prop('C02', 'Parallel and batched processing equals sequential processing',
     'Processing a list of items with any number of worker threads returns the results of applying the process to each item exactly once, '
     'in the order of the items, so the outcome does not depend on the number of threads, the scheduling or the batch size. The splitting of a list '
     'into parts or batches always yields consecutive slices that together hold every item exactly once, in order. '
     'The same holds for the probabilities computed slice by slice by the smoothers.',
     ['schedules', 'inputs', 'configurations'], 'every list, every number of threads (also more threads than items), every batch size and every interleaving of the workers',
     'Tests run a few sizes on one machine and one schedule; the number of threads follows the number of cores.',
     ['scrappybara/utils/multithreading.py', 'scrappybara/utils/mutables.py', 'scrappybara/langmodel/smoother.py', 'scrappybara/syntax/parser.py'],
     [('run_multithreads', 'scrappybara/utils/multithreading.py'), ('divide_list, make_batches', 'scrappybara/utils/mutables.py'),
      ('Smoother._process_ranges, calc_ngrams_multithread', 'scrappybara/langmodel/smoother.py')],
     'the value of the threaded map equals the concatenation of the images of consecutive slices; each worker writes only its own output, every started '
     'worker is joined before its output is read; the slice bounds of lists, batches and smoother ranges are the specified partition')

prop('C03', 'A failure in a worker thread reaches the caller',
     'If processing any item raises an exception, the caller of the threaded map gets that exception after all workers have stopped, instead of a '
     'silently shorter or shifted result. No exception raised while processing is swallowed on any path of the package\'s threaded work.',
     ['fault_sequences', 'schedules', 'inputs'], 'every item, every exception of the process, every number of threads, every interleaving',
     'No test makes a worker fail; a thread\'s exception only prints a traceback and leaves the test green.',
     ['scrappybara/utils/multithreading.py'], [('_Thread.run stores the error, run_multithreads raises it', 'scrappybara/utils/multithreading.py')],
     'every exceptional path of a worker stores the exception; after the joins the stored exception is raised; no broad handler in the code a worker runs '
     'ends without recording or re-raising the exception')

prop('C04', 'Results never depend on earlier calls or on other objects',
     'Calling a component of the library (tokenizer, sentencizer, normalizers, language model queries, parser, tagger, logic pipeline, extractor) gives the '
     'same result whatever was processed before by it or by any other instance. Nothing is carried over between sentences, texts, calls or objects: '
     'no shared mutable default, class-level container, module-level state or changed configuration.',
     ['histories', 'inputs', 'schedules'], 'every sequence of calls on any instances of the components',
     'Each test calls a fresh or module-level object a few times with fixed inputs; carried state shows only for particular sequences.',
     ['scrappybara/preprocessing/tokenizer.py', 'scrappybara/preprocessing/sentencizer.py', 'scrappybara/pipeline/logic_pipeline.py',
      'scrappybara/normalization/lemmatizer.py', 'scrappybara/langmodel/language_model.py', 'scrappybara/syntax/parser.py', 'scrappybara/syntax/node.py'],
     [('all per-call state lives in locals or in objects created by the call', 'scrappybara/')],
     'two-call analysis: a call is analysed after an arbitrary earlier call on another instance and on the same instance; its value and effects must be equal, as terms over its own '
     'arguments, to those of the first call')

prop('C05', 'Over-long sentences are resplit, still too long ones dropped, others untouched',
     'A sentence with at most the maximum number of tokens goes through unchanged; a longer one is cut at the tokens : " ; ( ) [ ] { } - (which are removed, empty pieces giving no sentence), '
     'and a piece that is still longer than the maximum is dropped. So no sentence longer than the maximum ever reaches the neural models, and no '
     'admissible sentence or piece is lost. Vectorization itself refuses a longer sentence with an error instead of truncating it.',
     ['inputs'], 'every token list of every text, in particular lengths at and around the maximum',
     'No test runs the pipeline; the vectorization tests use short sentences.',
     ['scrappybara/pipeline/pipeline.py', 'scrappybara/syntax/training_samples.py', 'scrappybara/config.py'],
     [('Pipeline.__split_tokens', 'scrappybara/pipeline/pipeline.py'), ('vectorize_sentence', 'scrappybara/syntax/training_samples.py')],
     'guard of the resplit and of the drop, the set of splitters and the pieces kept, in the value of the pipeline call; guard of the error of the vectorization; the configured maximum')

prop('C06', 'Polarity of a tuple is the parity of its negated participants',
     'In every tuple, the verb or copula argument is affirmative exactly when an even number of the tuple\'s distinct participants (subject, verb or copula, objects, property, agent, and in clauses the '
     'outer subject and verb) is negated; a node playing two roles counts once, and for passive rewritings the subjects other than the object count as one affirmative participant if any of them is affirmative. No other argument carries a negation.',
     ['inputs'], 'every parse tree and every combination of negated nodes, for every tuple shape',
     'The tests have a few sentences with one negation; the number of combinations of negated participants and shapes is far larger.',
     ['scrappybara/semantics/semantic_tuple_extractor.py', 'scrappybara/utils/maths.py'],
     [('_polarity, xnor', 'scrappybara/semantics/semantic_tuple_extractor.py'), ('xnor', 'scrappybara/utils/maths.py')],
     'polarity component of every argument of every tuple the extractor emits, as a canonical boolean function of the nodes\' polarities, together with the conditions under which the tuple is emitted')

prop('C07', 'Argument codes follow the grammar of tuples',
     'Every argument of every tuple carries the code of what it is: nouns by tag (N noun, O pronoun, P proper noun, S symbol, U numeral), verbs by use (T with object or clause, I without, R with recipient, C copula), '
     'adjectives A, or L when they are past participles. The sequence of codes therefore always tells the shape of the tuple.',
     ['inputs'], 'every node tag, in every position of every tuple shape',
     'The tests see a few code sequences; tags such as symbols and numerals do not occur in most positions.',
     ['scrappybara/semantics/semantic_tuple_extractor.py', 'scrappybara/semantics/argument_code.py'],
     [('_noun_arg_code, _adj_arg_code, _prop_arg_code', 'scrappybara/semantics/semantic_tuple_extractor.py'), ('ArgCode', 'scrappybara/semantics/argument_code.py')],
     'code component of every argument of every tuple the extractor emits, as a decision diagram over the tag of the node; the code table itself')

prop('C08', 'Words of tuple arguments are the canonical words of their nodes',
     'The word of every tuple argument is the canonical form of the node it stands for; in passive rewritings the object is the subject of "be" plus the past participle of the verb\'s lemma followed by its particles, properties of objects '
     'use "be" plus that participle, properties of participles use "be" plus the participle\'s canonical form, and active rewritings use the active verb of the adjective. Arguments stand in the order subject, verb, object (outer clause before inner clause).',
     ['inputs'], 'every node, every particle list, every tuple shape',
     'The tests compare whole tuples of some sentences; most shapes with particles or coordination are never seen.',
     ['scrappybara/semantics/semantic_tuple_extractor.py', 'scrappybara/normalization/inflector.py'],
     [('__make_stuples_* methods', 'scrappybara/semantics/semantic_tuple_extractor.py')],
     'word component of every argument of every tuple the extractor emits, as a term over the node\'s canonical form, lemma, particles and active verb')

prop('C09', 'Exactly the licensed tuples are extracted',
     'For every verb, subject, object, recipient, property, agent and adjective relation registered in a sentence, exactly the licensed tuples are produced, once each: clause tuples for verbs whose object is a verb (whose clause verb yields nothing of its own in the second round), transitive, intransitive, recipient, copula, participle and adjective tuples, '
     'and passive forms for every noun object. Nothing is produced for verbs introduced by infinitive "to" except passive forms, for verbs that have a property or existence as transitive verbs, intransitively for have, get, be, do, or passively for have, get; arguments are nouns, pronouns, proper nouns, symbols or numerals (properties also adjectives).',
     ['inputs'], 'every set of nodes with any registered relations',
     'The tests compare some sentences; the guards are independent and their combinations are not enumerable by examples.',
     ['scrappybara/semantics/semantic_tuple_extractor.py'], [('SemanticTupleExtractor.__call__ and its rounds', 'scrappybara/semantics/semantic_tuple_extractor.py')],
     'the multiset of tuples returned, with the guard of every tuple, as a term over the nodes and their relations; helper properties of nodes included')

prop('C10', 'Relations of a sentence are registered and distributed over coordination',
     'Indirect objects, existences, properties, indirect properties, adjectives and agents are registered exactly on the node the dependency gives, for the dependent and everything coordinated with it by "and" or "or". Properties reach the (coordinated) subjects of their copula '
     '(or the noun a relative pronoun stands for) unless the property has a marker, indirect properties reach the objects together with subject and verb, comparative and plain complements give adjectives, and agents are complements marked "by" of a property or complement adjective.',
     ['inputs'], 'every dependency tree over every set of nodes',
     'The tests cover a few trees; coordination multiplies every relation.',
     ['scrappybara/syntax/arg_finder.py', 'scrappybara/syntax/node.py'],
     [('ArgFinder.__call__, _register_* functions', 'scrappybara/syntax/arg_finder.py')],
     'appends to the relation lists of nodes (all but subjects and objects), with their guards, over an abstract dependency tree')

prop('C11', 'Subjects and objects of verbs are the right nodes',
     'Every verb gets as subjects and objects exactly the nodes its dependencies give, with everything coordinated with them: a relative pronoun (that, which, who) of an unmarked relative clause is replaced by the noun, a reflexive object by the subject, a reflexive subject of an object clause by the subject of the outer verb. '
     'Verbs coordinated with it share its subjects unless they have their own, and its objects only when they have no dependents; marked complement verbs inherit the subject of the verb they complement, and the noun before a relative clause without object becomes its object unless the subject is a relative pronoun.',
     ['inputs'], 'every dependency tree over every set of nodes',
     'The tests cover a few trees with at most one such construction.',
     ['scrappybara/syntax/arg_finder.py', 'scrappybara/syntax/node.py'],
     [('_register_subjs, _register_objs, pronoun resolution, long-distance dependencies', 'scrappybara/syntax/arg_finder.py')],
     'appends to the subject and object lists of nodes, with their guards, over an abstract dependency tree')

prop('C12', 'A node is negated exactly when it has a negation dependent',
     'After argument finding a node is negative if and only if at least one of its dependents is attached by the negation dependency, wherever that dependent stands among the others. Every other node stays affirmative, and nothing else changes the polarity of a node.',
     ['inputs'], 'every dependency tree and every order of dependents', 'The tests have a few sentences with one negation.',
     ['scrappybara/syntax/arg_finder.py', 'scrappybara/syntax/node.py'], [('ArgFinder.__call__: children analysis', 'scrappybara/syntax/arg_finder.py')],
     'writes to the polarity of nodes, with their guards, over an abstract dependency tree; initial polarity of nodes')

prop('C13', 'Nodes: names flattened, particles attached, functional words dropped',
     'From tokens, tags and a dependency tree, every token gives one node under its position, except that tokens outside the tree give none, a chain of flat dependencies becomes one node (words joined in chain order, index and tag of the last token), particles after their head become its lower-cased particles, and a particle "to" before it marks the infinitive. '
     'The new tree keeps all remaining arcs, and functional words (articles, auxiliaries, markers, negations, interjections, particles, modals) are dropped from the result but stay in the tree. A sentence without tree has no nodes, a tree of only a root gives that one node.',
     ['inputs'], 'every sentence and every dependency tree over it', 'The tests parse a few labelled sentences.',
     ['scrappybara/syntax/nodifier.py', 'scrappybara/syntax/node.py', 'scrappybara/syntax/dependencies.py'],
     [('Nodifier.__call__', 'scrappybara/syntax/nodifier.py'), ('Node.__init__', 'scrappybara/syntax/node.py')],
     'value of the nodifier as a term over tokens, tags and an abstract tree; fields of new nodes')

prop('C14', 'Noun chunks: the right nouns, joined in sentence order',
     'A noun gets a chunk exactly when some other noun precedes it as its unmarked complement and it is not itself part of another chunk; the chunk joins, in sentence order, the lemmas of the noun and of all nouns that reach it through such complements at any depth. No other node gets a chunk.',
     ['inputs'], 'every tree and every depth of compound nouns', 'The tests contain chunks of two or three nouns.',
     ['scrappybara/syntax/chunker.py'], [('Chunker.__call__, _chunk', 'scrappybara/syntax/chunker.py')],
     'writes to the chunk of nodes with their guards and value, including the recursion over compounds')

prop('C15', 'Tag repair changes exactly the misjudged complements and properties',
     'Only nodes without dependents that are complements of a noun or properties have their tag changed: a noun-like tag becomes adjective when the lemma is a known adjective, otherwise an adjective becomes noun when the lemma is a known noun. All other nodes keep their tag.',
     ['inputs'], 'every node, tree and word list', 'The tests contain few such nodes.',
     ['scrappybara/syntax/fixer.py'], [('Fixer.__call__', 'scrappybara/syntax/fixer.py')],
     'writes to the tag of nodes with guard and value as decision diagrams over tag, dependency and word lists')

prop('C16', 'Canonical form of every node',
     'Object pronouns (me, you, her, him, us, them) become subject pronouns, a chunked common noun becomes its chunk, verbs and adjectives become their lemma followed by their particles, every other node its lemma. An adjective is also looked up as a verb: if that reading is a past form, its active verb is that verb\'s lemma with the particles, otherwise it has none.',
     ['inputs'], 'every node (tag, lemma, chunk, particles)', 'The tests contain a few of the combinations.',
     ['scrappybara/normalization/canonicalizer.py'], [('Canonicalizer.__call__', 'scrappybara/normalization/canonicalizer.py')],
     'writes to canonical form, active verb and suffix of a node with guards')

prop('C17', 'Lemmatization applies the rules in their order and never invents words',
     'For every word and tag the lemma and the suffix are those of the first applicable rule: known irregular forms first, then the suffix rules of the tag (longest first), an unknown candidate leaving the word as it is or its irregular base. A lemma produced by a rule is always a candidate the language model knows (verbs preferring the one seen after subject pronouns and modals), '
     'prefixed verbs are lemmatized through their base form, and tags without inflection leave the word unchanged with no suffix.',
     ['inputs'], 'every word, every tag, every language model and irregular-form tables', 'The tests check about a hundred words.',
     ['scrappybara/normalization/lemmatizer.py', 'scrappybara/utils/text.py'], [('Lemmatizer.__call__', 'scrappybara/normalization/lemmatizer.py')],
     'value of the lemmatizer as a decision diagram over word suffixes, lengths, tables and language-model answers')

prop('C18', 'Spelling is standardized only to a variant the language model prefers',
     'A token that occurs at least five times in the language model is returned as it is. Otherwise the British/American patterns (our/or, yse/yze/ise/ize, ce/se, ogue/og, ell/el, ae/e, oe/e) are tried in this order on stems of the required length, and the first pattern for which the language model knows a variant gives the better variant with the original ending; if none applies the token is unchanged.',
     ['inputs'], 'every token and every language model', 'The tests check about twenty words with one model.',
     ['scrappybara/normalization/standardizer.py'], [('Standardizer.__call__, _split_token', 'scrappybara/normalization/standardizer.py')],
     'value of the standardizer as a decision diagram over pattern matches, lengths and language-model answers; the patterns themselves')

prop('C19', 'Past participles follow the table and the spelling rules',
     'The past participle of a lemma is the irregular form if the table has one; otherwise -ied replaces a final y after a consonant, -d is added after consonant plus e or ie, a final consonant after a vowel is doubled when the language model prefers that form, and -ed is added in all other cases. Lemmas of one or two letters are handled by the same rules without error.',
     ['inputs'], 'every lemma of at least one letter and every table and language model', 'The tests check a dozen verbs.',
     ['scrappybara/normalization/inflector.py', 'scrappybara/utils/text.py'], [('Inflector.past_participle', 'scrappybara/normalization/inflector.py')],
     'value of the inflector as a decision diagram over letter classes, lengths, the table and language-model answers')

prop('C20', 'Language-model queries rank by probability in context',
     'The best n-gram is the known candidate with the highest probability (the first given among equals), the best token is the one whose highest-order n-grams around it in the given context score best, lower orders breaking ties; both return nothing when no candidate is known. Next-word and top-n-gram lists are in descending probability, cut to the limit, next words falling back to shorter contexts; '
     'the n-gram candidates of a token in context are exactly the windows of the given size that contain the token. An n-gram counts as known only with at least the required count.',
     ['inputs'], 'every model content, candidates, contexts, orders and limits', 'The model file for n-grams of order 2 is not in the repository; the tests use one small model.',
     ['scrappybara/langmodel/language_model.py', 'scrappybara/langmodel/token_context.py'],
     [('best_token, best_ngram, next_word, top_ngrams, has_ngram', 'scrappybara/langmodel/language_model.py'), ('TokenContext.candidates', 'scrappybara/langmodel/token_context.py')],
     'values of the queries as terms over the loaded table, the tokenizer and the arguments')

prop('C21', 'What the language-model builder writes is what the language model reads',
     'The files written by the builder hold one line per n-gram of the order with positive probability, in descending probability: text, count and probability separated by tabs, and nothing else. Loading reads every line of every requested order back into the same text, count and probability, keeping exactly those with at least the minimum count of that order.',
     ['inputs', 'configurations'], 'every set of n-grams, every maximum order, every tuple of minimum counts', 'The tests never write and read the same file.',
     ['scrappybara/langmodel/language_model_builder.py', 'scrappybara/langmodel/language_model.py'],
     [('__write_ngram_file', 'scrappybara/langmodel/language_model_builder.py'), ('LanguageModel.__init__', 'scrappybara/langmodel/language_model.py')],
     'file effects of the builder (path, mode, encoding, line format, guard, order) and value of the table loaded, both as terms')

prop('C22', 'N-gram extraction and counting are exact',
     'The n-grams of a text are all windows of n consecutive tokens of each of its sentences (never across sentences) in which every token is "I" or consists of letters and does not start with an uppercase letter, lower-cased, one entry per occurrence, in order. The store counts every occurrence: the count of an n-gram equals the number of times it was added, and every distinct n-gram is held once.',
     ['inputs', 'histories'], 'every token lists, every order, every sequence of additions', 'The tests use one or two texts.',
     ['scrappybara/langmodel/ngrams_extraction.py', 'scrappybara/langmodel/ngram_store.py', 'scrappybara/langmodel/ngram.py'],
     [('extract_ngrams', 'scrappybara/langmodel/ngrams_extraction.py'), ('NgramStore.make_ngram', 'scrappybara/langmodel/ngram_store.py')],
     'value of the extraction; effects of an addition on the store; derived forms of an n-gram')

prop('C23', 'Smoothed probabilities follow their formulas for every n-gram',
     'Maximum-likelihood probabilities are count divided by the total count of the order; modified Kneser-Ney probabilities are computed for every n-gram of every order from counts and continuation counts with the three discounts of the right order, unigrams by continuation count over the number of bigrams. Every n-gram gets its own probability, whatever the number of processes, and insufficient data is reported by an error.',
     ['inputs', 'configurations'], 'every n-gram store, maximum order and number of processes', 'The tests check one small corpus.',
     ['scrappybara/langmodel/mkn_smoother.py', 'scrappybara/langmodel/mle_smoother.py', 'scrappybara/langmodel/smoother.py', 'scrappybara/langmodel/ngram.py'],
     [('MKNSmoother, _prepare_mkn, _calc_proba_recursive', 'scrappybara/langmodel/mkn_smoother.py'), ('MLESmoother', 'scrappybara/langmodel/mle_smoother.py')],
     'values and effects of the smoothers as terms over an abstract list of n-grams; guard of the error')

prop('C24', 'Tokenization applies its rules in order and loses no text',
     'The tokens of a text are the result of the documented rewriting steps in their order (sanitize, protect, keep, split, segment, re-attach, restore), every protected piece being restored exactly as it was, whatever other pieces it contains. No internal placeholder ever appears in a token and no token contains white space from splitting.',
     ['inputs'], 'every text', 'The tests check some hundred phrases.',
     ['scrappybara/preprocessing/tokenizer.py', 'scrappybara/preprocessing/sanitization.py'],
     [('Tokenizer.__call__, __protect_text', 'scrappybara/preprocessing/tokenizer.py'), ('sanitize', 'scrappybara/preprocessing/sanitization.py')],
     'value of the tokenizer as the composition of rewriting steps: patterns (parsed), flags, replacements, order, and the protect/restore pairing')

prop('C25', 'Sentence splitting keeps quotes and brackets together and loses nothing',
     'Texts are split into sentences at line breaks and at tokens made only of dots, question marks, exclamation marks or colons; a dot closing a quotation also ends the sentence. Quoted and bracketed pieces are never split: each is tokenized on its own and put back in place between its quotes or brackets, quotes inside brackets included, and no block marker or sentence-end mark ever shows up in the tokens.',
     ['inputs'], 'every text', 'The tests check some thirty texts.',
     ['scrappybara/preprocessing/sentencizer.py'], [('Sentencizer.__call__, __find_blocks, __split_sentences', 'scrappybara/preprocessing/sentencizer.py')],
     'value of the sentencizer as a term over the text and the tokenizer: patterns, block bookkeeping, insertion and splitting')

prop('C26', 'Parsing always ends in a tree over the sentence\'s tokens',
     'Whatever transitions the model predicts, each transition removes a token from the stack or the buffer as specified, a token gets at most one parent, words marked as outside the tree take no part, and a token predicted as root is attached elsewhere only as split. Each sentence gets its own tags and tree; the tree\'s root is the first token that has dependents but no parent, and a sentence without arcs has no tree.',
     ['inputs', 'histories'], 'every sequence of predicted transitions, tags and dependencies, every batch size', 'The models are not in the repository, so no test parses anything.',
     ['scrappybara/syntax/parser.py', 'scrappybara/syntax/transitions.py'], [('_Parse, _build_tree, Parser.__call__', 'scrappybara/syntax/parser.py')],
     'effects of each transition on stack, buffer and arcs for an arbitrary parse state; root; dispatch of predictions to sentences')

prop('C27', 'Training transitions rebuild the labelled tree',
     'A labelled sentence exposes its tokens, tags, dependencies and a tree with exactly the labelled arcs (none for root or words outside the tree). Its transition sequence is the one the specified oracle takes for every stack and buffer: left arc, right arc, reduce when the next word has an arc before the top of the stack, else shift; so replaying it rebuilds exactly that tree for projective sentences.',
     ['inputs'], 'every labelled sentence', 'The tests check a few sentences.',
     ['scrappybara/syntax/labelled_data.py'], [('LabelledSentence.transitions, __init__', 'scrappybara/syntax/labelled_data.py')],
     'value of the transitions loop (guards and order of the cases) and of the labelled sentence')

prop('C28', 'Vectors line up with tokens: one row and one tag per token',
     'Every sentence is framed by a start and an end token and padded with zeros to the fixed size: row i+1 encodes token i (its last characters framed by start and end marks, and the vector of its lower-cased word or zeros), masks select exactly the given positions, and training labels sit at the same rows. Reading predictions back gives exactly one tag and one dependency per token, in order.',
     ['inputs'], 'every sentence up to the maximum length, every token length, unknown characters and words', 'The tests check short tokens; the tagger is untested.',
     ['scrappybara/syntax/training_samples.py', 'scrappybara/syntax/tagger.py', 'scrappybara/syntax/charset.py', 'scrappybara/syntax/wordset.py', 'scrappybara/syntax/parser.py'],
     [('vectorize_sentence, make_masks, samples', 'scrappybara/syntax/training_samples.py'), ('Tagger.tag', 'scrappybara/syntax/tagger.py')],
     'values of vectorization, masks, training samples, tagger and lookups as terms')

prop('C29', 'Training and prediction feed the models the same inputs in the same order',
     'For each model, the order and meaning of the input tensors are the same when building, training and predicting, the training labels are the ones the predictions are decoded to, and every label (tag, dependency, transition) has a fixed distinct code that fits the size of the output. Saving and loading use the same weights file, different for each model.',
     ['inputs', 'configurations'], 'every training set and every batch', 'No test builds or trains a model.',
     ['scrappybara/syntax/models.py', 'scrappybara/syntax/labelled_data.py', 'scrappybara/syntax/training_samples.py', 'scrappybara/syntax/tags.py', 'scrappybara/syntax/dependencies.py', 'scrappybara/syntax/transitions.py'],
     [('PTagsModel, PDepsModel, TransModel', 'scrappybara/syntax/models.py'), ('extract_*_training_data', 'scrappybara/syntax/labelled_data.py')],
     'arguments of the framework calls of construction, training, prediction, saving and loading; training tensors; label enumerations')

prop('C30', 'Tree queries agree with the registered arcs',
     'For every sequence of registrations, all queries of a tree (parent, children, children by label, descendant and ancestor branches, membership, size, nodes, iteration) answer according to exactly the registered arcs, in registration order. A node is never registered as its own child, and iterations over a tree are independent of each other.',
     ['histories', 'inputs'], 'every sequence of registrations and queries', 'The tests use two small trees.',
     ['scrappybara/utils/tree.py', 'scrappybara/utils/mutables.py'], [('Tree', 'scrappybara/utils/tree.py')],
     'values of all queries over an abstract tree after an arbitrary registration; guard of registration')

prop('C31', 'Files are closed, in UTF-8, and read back what was written',
     'Every file the library opens is closed on every path, normal or exceptional, and text files are always read and written in UTF-8. Data files are found under the data folder by the given folder and file names; word lists load as the set of stripped lines, tables as first column to second column, and binary files load back the object that was saved.',
     ['crash_points', 'inputs', 'configurations'], 'every path through the file functions, every default encoding of the platform', 'The tests run with UTF-8 as default encoding and cannot see unclosed files.',
     ['scrappybara/utils/files.py', 'scrappybara/langmodel/language_model_builder.py', 'scrappybara/syntax/wordset.py', 'scrappybara/syntax/charset.py', 'scrappybara/langmodel/language_model.py'],
     [('with statements around open', 'scrappybara/'), ('file_path, txt_file_reader, load_*', 'scrappybara/utils/files.py')],
     'typestate of every open call (closed on all paths), encoding argument of every text-mode open, values and effects of the file helpers')

prop('C32', 'Documents, sentences, tuples and arguments present their content faithfully',
     'A tuple gives back its arguments by iteration, index and length, its code is the concatenation of theirs, and its text is the code followed by the argument texts in order, negations shown as "NOT" unless decorators are off. An argument accepts exactly the known codes and reports the part of speech of its code; documents and sentences iterate over their content in order, any number of times, and a document\'s tuples are those of its sentences in order.',
     ['inputs'], 'every tuple, of any length, argument, sentence and document', 'The tests use a few tuples.',
     ['scrappybara/semantics/semantic_tuple.py', 'scrappybara/semantics/argument.py', 'scrappybara/pipeline/document.py', 'scrappybara/pipeline/sentence.py'],
     [('SemanticTuple, Argument', 'scrappybara/semantics/'), ('Document, Sentence', 'scrappybara/pipeline/')],
     'values of all methods of result objects over abstract contents; guard and content of the error for unknown codes')

prop('C33', 'The logic stages run in their order, each on all nodes, before the next one',
     'For every sentence the stages run in the order nodes, spelling, lemma, tag repair, noun chunks (only if asked for), canonical forms, argument finding, tuple extraction; each stage has handled all nodes of the sentence before the next one starts, and works on the results of the previous ones. Every stage gets the resources meant for it (word lists, irregular tables, language model).',
     ['inputs', 'configurations'], 'every sentence, with and without chunking', 'A change of order shows only in sentences where stages interact.',
     ['scrappybara/pipeline/logic_pipeline.py'], [('LogicPipeline.__init__, __logic_process', 'scrappybara/pipeline/logic_pipeline.py')],
     'ordered summary of the stage calls with their arguments and constructor resources')

prop('C34', 'The language-model builder rejects bad settings and uses every text',
     'An unknown smoothing method, or Kneser-Ney smoothing with a maximum order below two, is rejected with its error at construction. Otherwise every text of the iterator is read exactly once, whatever the number of processes, sentencized, and all its n-grams of every order up to the maximum are counted before the chosen smoother runs once, and one file per order is written.',
     ['inputs', 'configurations'], 'every iterator length and number of processes (also when the number of texts is a multiple of it)', 'The builder\'s call is not tested.',
     ['scrappybara/langmodel/language_model_builder.py'], [('LanguageModelBuilder.__init__, __call__', 'scrappybara/langmodel/language_model_builder.py')],
     'guards of the errors; reading loop, counting loops and smoother call as terms; file effects')

prop('C35', 'Tokenization terminates in reasonable time on every text',
     'For every text the tokenizer and the sentencizer terminate, in time polynomial in its length.',
     ['inputs'], 'every text', 'Tests run on short texts.',
     ['scrappybara/preprocessing/tokenizer.py'], [('protect loop, regular expressions', 'scrappybara/preprocessing/tokenizer.py')], '',
     na='The protect loop ends when the replaced text no longer matches its pattern, which is a fact about strings produced at run time by a backtracking regular-expression engine; no sound static measure in reach bounds it for all texts.')

prop('C36', 'Probabilities of all words after a context sum to at most one',
     'For every context, the smoothed probabilities of the words that follow it sum to at most one (up to rounding).',
     ['inputs'], 'every corpus', 'Tests check a few single probabilities.',
     ['scrappybara/langmodel/mkn_smoother.py'], [('MKNSmoother', 'scrappybara/langmodel/mkn_smoother.py')], '',
     na='A sum over runtime counts in floating point; needs arithmetic reasoning about data-dependent sums, which value-flow analysis cannot bound (the formula itself is C23).')

prop('C37', 'Tags, dependencies and tuples are linguistically right',
     'Predicted tags, dependency trees and extracted tuples are the ones a linguist would give to the sentence.',
     ['inputs'], 'every English sentence', 'Tests sample labelled sentences.',
     ['scrappybara/syntax/models.py'], [('trained weights', 'scrappybara/data/models')], '',
     na='Depends on trained weights and on a human oracle; the weights are not in the repository and no static argument decides it.')

prop('C38', 'Projective parses: the predicted tree has no crossing arcs and one root',
     'For every sequence of predictions the resulting arcs never cross and are acyclic.',
     ['inputs'], 'every sequence of predicted transitions', 'No test parses.',
     ['scrappybara/syntax/parser.py'], [('_Parse', 'scrappybara/syntax/parser.py')], '',
     na='An inductive invariant over the unbounded history of stack and buffer positions; it follows from the per-transition effects decided under C26 only by a hand proof, which no analysis here mechanises.')

RULES = {k: v['rule'] for k, v in PROPS.items()}

ASSUME = [
    'The specification the summaries are compared with (/verif/ref, the repaired sources at the time of writing) states the intended behaviour; it was reviewed by reading and twelve defects found that way were repaired first.',
    'Python semantics as modelled by the analyser (single thread inside a function, no monkey patching, no reflection on package internals; builtin, re, numpy, keras and pickle calls are uninterpreted functions of their arguments except where algebraic laws are listed in sa/lib.py).',
    'Loops are summarised exactly only for the recognised forms (maps, filters, folds, appends); other loops become opaque terms compared structurally.',
    'A difference is reported only if both sides are precise at the place of the difference; imprecise differences are listed as undecided and do not fail the check.',
    'Dependency trees are those a tree can hold: a node has at most one parent.',
]
