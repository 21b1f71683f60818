"""Results kept from earlier calls, and other larger rewrites that keep the behaviour."""
ST = 'normalization/standardizer.py'
IN = 'normalization/inflector.py'
LE = 'normalization/lemmatizer.py'
CA = 'normalization/canonicalizer.py'
TK = 'preprocessing/tokenizer.py'
TX = 'utils/text.py'

E = [
    ('u-memo-infl', 'C04', [(IN, "        self.__lemma_pp = lemma_pp\n", "        self.__lemma_pp = lemma_pp\n        self.__known = {}\n"),
                            (IN, "    def past_participle(self, lemma):\n", "    def past_participle(self, lemma):\n        if lemma not in self.__known:\n            self.__known[lemma] = self.__inflect(lemma)\n        return self.__known[lemma]\n\n    def __inflect(self, lemma):\n")]),
    ('u-memo-stand', 'C04', [(ST, "        self.__lm = language_model\n", "        self.__lm = language_model\n        self.__cache = {}\n"),
                             (ST, "    def __call__(self, token):\n", "    def __call__(self, token):\n        if token in self.__cache:\n            return self.__cache[token]\n        result = self.__standardize(token)\n        self.__cache[token] = result\n        return result\n\n    def __standardize(self, token):\n")]),
    ('u-memo-lemma', 'C04', [(LE, "        self.__lemma_pp = lemma_pp\n", "        self.__lemma_pp = lemma_pp\n        self.__done = {}\n"),
                             (LE, "    def __call__(self, word, tag):\n", "    def __call__(self, word, tag):\n        if (word, tag) not in self.__done:\n            self.__done[(word, tag)] = self.__lemmatize(word, tag)\n        return self.__done[(word, tag)]\n\n    def __lemmatize(self, word, tag):\n")]),
    ('u-memo-infl-kept', 'C04', [(IN, "                    if best:\n                        return best\n", "                    if best:\n                        self.__lemma_pp[lemma] = best\n                        return best\n")]),
    ('u-memo-get', 'C04', [(ST, "        self.__lm = language_model\n", "        self.__lm = language_model\n        self.__cache = {}\n"),
                           (ST, "    def __call__(self, token):\n", "    def __call__(self, token):\n        result = self.__cache.get(token)\n        if result is None:\n            result = self.__cache[token] = self.__standardize(token)\n        return result\n\n    def __standardize(self, token):\n")]),
]
