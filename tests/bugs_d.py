"""Bugs: state carried over between calls (C04), failures of workers (C03), models (C29), batches and documents (C01, C05)."""
TK, SZ, ST, IN = 'preprocessing/tokenizer.py', 'preprocessing/sentencizer.py', 'normalization/standardizer.py', 'normalization/inflector.py'
LE, CA, ND, NO = 'normalization/lemmatizer.py', 'normalization/canonicalizer.py', 'syntax/node.py', 'syntax/nodifier.py'
EX, TR, PA, TG = 'semantics/semantic_tuple_extractor.py', 'utils/tree.py', 'syntax/parser.py', 'syntax/tagger.py'
LM, PI, LP, MT = 'langmodel/language_model.py', 'pipeline/pipeline.py', 'pipeline/logic_pipeline.py', 'utils/multithreading.py'
MO, TS, DO, SE = 'syntax/models.py', 'syntax/training_samples.py', 'pipeline/document.py', 'pipeline/sentence.py'
MU, CH, AF, LB = 'utils/mutables.py', 'syntax/chunker.py', 'syntax/arg_finder.py', 'langmodel/language_model_builder.py'
E = [
    # C04
    ('d04-quotes-self', 'C04', [(SZ, "        self.__tokenize = tokenizer\n", "        self.__tokenize = tokenizer\n        self.__quotes = []\n"),
                                (SZ, "        quotes = []\n        brackets = []\n", "        quotes = self.__quotes\n        brackets = []\n")]),
    ('d04-quotes-default', 'C04', [(SZ, "    def __call__(self, text):\n", "    def __call__(self, text, quotes=[]):\n"),
                                   (SZ, "        quotes = []\n        brackets = []\n", "        brackets = []\n")]),
    ('d04-protected', 'C04', [(TK, "        protected = {}\n        index = 1\n", "        protected = self.__protected\n        index = len(protected) + 1\n"),
                              (TK, "    def __call__(self, text):\n", "    __protected = {}\n\n    def __call__(self, text):\n")]),
    ('d04-std-cache', 'C04', [(ST, "    def __init__(self, language_model):\n", "    __cache = {}\n\n    def __init__(self, language_model):\n"),
                              (ST, "        if self.__lm.has_ngram(token, 5):\n            return token\n", "        if token in self.__cache:\n            return self.__cache[token]\n        if self.__lm.has_ngram(token, 5):\n            self.__cache[token] = token\n            return token\n")]),
    ('d04-infl-mod', 'C04', [(IN, "                    if best:\n                        return best\n", "                    if best:\n                        self.__lemma_pp[lemma] = best[:-1]\n                        return best\n")]),
    ('d04-node-particles', 'C04', [(ND, "    def __init__(self, token_idx, text, tag):\n", "    def __init__(self, token_idx, text, tag, particles=[]):\n"),
                                   (ND, "        self.particles = []  #", "        self.particles = particles  #")]),
    ('d04-node-agents', 'C04', [(ND, "        self.agents = []  #", "        #"), (ND, '    """Belongs to a parse tree"""\n', '    """Belongs to a parse tree"""\n    agents = []\n')]),
    ('d04-doc', 'C04', [(DO, "    def __init__(self):\n        self.sentences = []  # List of sentence objects\n", "    sentences = []\n\n    def __init__(self):\n        pass\n")]),
    ('d04-sent', 'C04', [(SE, "    def __init__(self):\n        self.stuples = []", "    def __init__(self, stuples=[]):\n        self.stuples = stuples")]),
    ('d04-tree', 'C04', [(TR, "    def __init__(self, root):\n", "    def __init__(self, root, parents={}):\n"), (TR, "self.__parents = {}", "self.__parents = parents")]),
    ('d04-lm-sort', 'C04', [(LM, "        return []\n\n    def best_token", "        self.__max_order = 1\n        return []\n\n    def best_token")]),
    ('d04-ext-blocked', 'C04', [(EX, "        blocked_for_round_2 = set()\n", "        blocked_for_round_2 = self.__blocked\n"),
                                (EX, "        self.__inflector = Inflector(", "        self.__blocked = set()\n        self.__inflector = Inflector(")]),
    ('d04-chunk-have', 'C04', [(CH, "        have_parent = set()\n", "        have_parent = self.have_parent\n"), (CH, "class Chunker(object):\n", "class Chunker(object):\n    have_parent = set()\n")]),
    ('d04-mask-global', 'C04', [(TS, "        _mask = [False] * cfg.PADDED_SENT_LENGTH\n", "        _mask = _MASK\n"), (TS, "def make_masks(idx_1, idx_2):\n", "_MASK = [False] * cfg.PADDED_SENT_LENGTH\n\n\ndef make_masks(idx_1, idx_2):\n")]),
    ('d04-cfg', 'C04', [(TS, "        raise SentenceTooLongError()\n", "        cfg.MAX_SENT_LENGTH = len(tokens)\n        raise SentenceTooLongError()\n")]),
    ('d04-prons', 'C04', [(CA, "            node.canon = self.__personal_pronouns_object_to_subject[node.lemma]\n", "            node.canon = self.__personal_pronouns_object_to_subject.pop(node.lemma)\n")]),
    # C03
    ('d03-except', 'C03', [(MT, "        except BaseException as error:", "        except Exception as error:")]),
    ('d03-value', 'C03', [(MT, "        except BaseException as error:\n            self.error = error\n", "        except ValueError:\n            pass\n        except BaseException as error:\n            self.error = error\n")]),
    ('d03-first', 'C03', [(MT, "    for thread in nb_threads:\n", "    for thread in nb_threads[:1]:\n")]),
    ('d03-notjoin', 'C03', [(MT, "        nb_threads[idx].join()\n", "        nb_threads[idx].join(60)\n")]),
    ('d03-early', 'C03', [(MT, "        nb_threads[idx].join()\n", "        nb_threads[idx].join()\n        if nb_threads[idx].error is not None:\n            raise nb_threads[idx].error\n")]),
    ('d03-item', 'C03', [(MT, "            self.output_items = [self.__process(item) for item in self.__input_items]\n", "            for item in self.__input_items:\n                try:\n                    self.output_items.append(self.__process(item))\n                except KeyError:\n                    continue\n")]),
    ('d03-last', 'C03', [(MT, "        if thread.error is not None:\n", "        if thread.error is not None and not output_items:\n")]),
    # C29
    ('d29-pdeps-order', 'C29', [(MO, "inputs=[tag_inputs, char_model.input, word_inputs], outputs=word_repr", "inputs=[char_model.input, tag_inputs, word_inputs], outputs=word_repr")]),
    ('d29-trans-masks', 'C29', [(MO, "np.array(word_vectors), np.array(masks_1),\n             np.array(masks_2)]", "np.array(word_vectors), np.array(masks_2),\n             np.array(masks_1)]")]),
    ('d29-learn-swap', 'C29', [(MO, "train_tag_ids, train_dep_ids,\n                           train_char_ids,", "train_dep_ids, train_tag_ids,\n                           train_char_ids,")]),
    ('d29-file', 'C29', [(MO, "'pdeps_weights.h5'", "'ptags_weights.h5'")]),
    ('d29-nbtags', 'C29', [(MO, "Dense(self._nb_deps, activation", "Dense(self._nb_tags, activation")]),
    ('d29-argmin', 'C29', [(MO, "        return [np.argmax(probas) for probas in batch_probas]", "        return [np.argmin(probas) for probas in batch_probas]")]),
    ('d29-label', 'C29', [(TS, "return self.__tag_ids, self._char_ids, self._word_vectors, self.__dep_ids", "return self.__dep_ids, self._char_ids, self._word_vectors, self.__tag_ids")]),
    ('d29-tagval', 'C29', [(TS, "[tag.value for tag in tags] + [Tag.PAD.value]", "[tag.value - 1 for tag in tags] + [Tag.PAD.value]")]),
    ('d29-masklab', 'C29', [(MO, "timestep2 = tf.boolean_mask(bilstm, masks_2_inputs, axis=0)", "timestep2 = tf.boolean_mask(bilstm, masks_1_inputs, axis=0)")]),
    ('d29-save', 'C29', [(MO, "        self._model.save_weights(str(file_path('models', filename)))", "        self._model.save_weights(str(file_path('data', filename)))")]),
    ('d29-fitrev', 'C29', [(MO, "[np.array(arg) for arg in args]", "[np.array(arg) for arg in reversed(args)]")]),
    ('d29-dup', 'C29', [('syntax/tags.py', "    SYM = ", "    SYM = 14  #")]),
    ('d29-nb', 'C29', [('syntax/tags.py', "NB_TAGS = ", "NB_TAGS = -1 + ")]),
    ('d29-transval', 'C29', [('syntax/transitions.py', "LEFT = 0", "LEFT = 2")]),
    # C01, C05
    ('d01-stuples', 'C01', [(DO, "for sent in self.sentences for stuple in sent.stuples]", "for sent in self.sentences for stuple in set(sent.stuples)]")]),
    ('d01-iter', 'C01', [(DO, "        return iter(self.sentences)", "        return reversed(self.sentences)")]),
    ('d01-senter', 'C01', [(SE, "        return iter(self.stuples)", "        return iter(self.stuples[1:])")]),
]
