"""Further bugs."""
ST = 'normalization/standardizer.py'
IN = 'normalization/inflector.py'
LE = 'normalization/lemmatizer.py'
MT = 'utils/multithreading.py'
LM = 'langmodel/language_model.py'
LB = 'langmodel/language_model_builder.py'
TC = 'langmodel/token_context.py'
MK = 'langmodel/mkn_smoother.py'
ML = 'langmodel/mle_smoother.py'
NG = 'langmodel/ngram.py'
NS = 'langmodel/ngram_store.py'
PI = 'pipeline/pipeline.py'
LP = 'pipeline/logic_pipeline.py'
MU = 'utils/mutables.py'

E = [
    ('e04-memo-word', 'C04', [(LE, "        self.__lemma_pp = lemma_pp\n", "        self.__lemma_pp = lemma_pp\n        self.__done = {}\n"),
                             (LE, "    def __call__(self, word, tag):\n", "    def __call__(self, word, tag):\n        if word not in self.__done:\n            self.__done[word] = self.__lemmatize(word, tag)\n        return self.__done[word]\n\n    def __lemmatize(self, word, tag):\n")]),
    ('e04-memo-lower', 'C04', [(ST, "        self.__lm = language_model\n", "        self.__lm = language_model\n        self.__cache = {}\n"),
                             (ST, "    def __call__(self, token):\n", "    def __call__(self, token):\n        key = token.lower()\n        if key in self.__cache:\n            return self.__cache[key]\n        result = self.__standardize(token)\n        self.__cache[key] = result\n        return result\n\n    def __standardize(self, token):\n")]),
    ('e04-memo-class', 'C04', [(ST, "    def __call__(self, token):\n", "    __cache = {}\n\n    def __call__(self, token):\n        if token in self.__cache:\n            return self.__cache[token]\n        result = self.__standardize(token)\n        self.__cache[token] = result\n        return result\n\n    def __standardize(self, token):\n")]),
    ('e03-runtime', 'C03', [(MT, "            raise thread.error\n", "            raise RuntimeError(str(thread.error))\n")]),
    ('e03-isinst', 'C03', [(MT, "            self.error = error\n", "            if isinstance(error, Exception):\n                self.error = error\n")]),
    ('e03-finally', 'C03', [(MT, "            self.error = error\n", "            self.error = error\n        finally:\n            self.error = None\n")]),
    ('e03-empty', 'C03', [(MT, "            self.error = error\n", "            if self.__input_items:\n                self.output_items = []\n")]),
    ('e03-lasterr', 'C03', [(MT, "    for thread in nb_threads:\n        if", "    for thread in nb_threads[1:]:\n        if")]),
    ('e03-noneres', 'C03', [(MT, "            self.output_items = [self.__process(item) for item in self.__input_items]\n", "            self.output_items = list(filter(None, map(self.__process, self.__input_items)))\n")]),
    ('e03-daemon', 'C03', [(MT, "        nb_threads[idx].join()\n        output_items", "        if nb_threads[idx].is_alive():\n            nb_threads[idx].join(5)\n        output_items")]),
    ('e03-outputs', 'C03', [(MT, "        if thread.error is not None:\n            raise thread.error\n", "        if thread.error is not None and len(nb_threads) > 1:\n            raise thread.error\n")]),
    ('e20-first', 'C20', [(LM, "for idx, token_context in enumerate(token_contexts)}", "for idx, token_context in reversed(list(enumerate(token_contexts)))}")]),
    ('e20-limit0', 'C20', [(LM, "[' '.join(tokens[-i:])][:limit]", "[' '.join(tokens[-i:])][:limit or None]")]),
    ('e20-hasmin', 'C20', [(LM, "        if min_count < 1:\n            return False\n", "        if min_count < 1:\n            min_count = 1\n")]),
    ('e20-window', 'C20', [(LM, "' '.join(tokens[-i:])", "' '.join(tokens[:i])")]),
    ('e20-anyall', 'C20', [(LM, "        if not any([token in self.__ngrams_details for token in tokens]):", "        if not all([token in self.__ngrams_details for token in tokens]):")]),
    ('e20-unk', 'C20', [(LM, "        self.__unk = (0, 0.0, float('-inf'))", "        self.__unk = (1, 0.0, float('-inf'))")]),
    ('e20-skip', 'C20', [(LM, "            else:\n                probas.append(float('-inf'))\n", "")]),
    ('e20-topsort', 'C20', [(LM, "sorted(ngrams, key=lambda x: x[2], reverse=True)", "sorted(ngrams, key=lambda x: x[1], reverse=True)")]),
    ('e20-order', 'C20', [(LM, "            if len(ngram.split()) == order:", "            if len(ngram.split()) <= order:")]),
    ('e20-before', 'C20', [(LM, "        tokens_before = self.__tokenize(before) or []\n        tokens_after = self.__tokenize(after) or []\n", "        tokens_before = self.__tokenize(before) or []\n        tokens_after = self.__tokenize(after) or tokens_before\n")]),
    ('e20-tokshare', 'C20', [(TC, "        tokens = tokens_before + [self.token] + tokens_after\n", "        tokens_before += [self.token]\n        tokens = tokens_before + tokens_after[:exploring_range - 1]\n")]),
    ('e21-min', 'C21', [(LM, "                    if count >= min_count:", "                    if count >= min(min_counts):")]),
    ('e21-dup', 'C21', [(LM, "                        self.__ngrams_details[text] = (count", "                        self.__ngrams_details[text.lower()] = (count")]),
    ('e23-wc3', 'C23', [(MK, "            else:\n                wc3[wc] += 1\n", "            elif ngram.count == 3:\n                wc3[wc] += 1\n")]),
    ('e23-disc', 'C23', [(MK, "self.__discount(order + 1, cl)", "self.__discount(order, cl)")]),
    ('e23-offset', 'C23', [(MK, "            j = i - process_range[0]\n", "            j = i % batch_size\n")]),
    ('e23-offset2', 'C23', [(MK, "                np_uni_mkn[i - process_range[0]] =", "                np_uni_mkn[i % len(process_range)] =")]),
    ('e23-mletotal', 'C23', [(ML, "_DataSlice(np_counts, self.__total_counts[order])", "_DataSlice(np_counts, np_counts.sum())")]),
    ('e23-wcmid', 'C23', [(MK, "        if ngram.order > 2:\n", "        if ngram.order > 3:\n")]),
    ('e23-d3', 'C23', [(MK, "        if countc == 2:\n            return self.__d2[order]\n", "        if countc <= 3:\n            return self.__d2[order]\n")]),
    ('e23-zero', 'C23', [(MK, "        if countc == 0:\n            return 0.0\n", "")]),
    ('e23-any', 'C23', [(MK, "n3[order] == 0, n4[order] == 0]", "n3[order] == 0]")]),
    ('e23-lower', 'C23', [(NG, "self.tokens[self.order - order:]", "self.tokens[:order]")]),
    ('e22-setdefault', 'C22', [(NS, "            ngram.count += 1\n            return ngram\n", "            ngram.count += 1\n            self.__store[text] = Ngram(text) if ngram.order > 2 else ngram\n            return ngram\n")]),
    ('e34-iter', 'C34', [(LB, "                    batch.append(next(text_iterator))\n                    nb_texts += 1\n", "                    text = next(text_iterator)\n                    if text not in batch:\n                        batch.append(text)\n                    nb_texts += 1\n")]),
    ('e34-empty', 'C34', [(LB, "                    consumed = True\n                    break\n", "                    consumed = len(batch) == 0\n                    break\n")]),
    ('e01-skipdoc', 'C01', [(PI, "        for start, end in sent_ranges:\n", "        for start, end in sent_ranges:\n            if start == end:\n                continue\n")]),
    ('e01-skipsent', 'C01', [(PI, "                sentence.stuples = stuple_list\n                doc.sentences.append(sentence)\n", "                sentence.stuples = stuple_list\n                if stuple_list:\n                    doc.sentences.append(sentence)\n")]),
    ('e01-sharedsent', 'C01', [(PI, "            for stuple_list in stuple_lists[start:end]:\n                sentence = Sentence()\n", "            sentence = Sentence()\n            for stuple_list in stuple_lists[start:end]:\n")]),
    ('e01-total', 'C01', [(PI, "            total_sents = new_total\n", "            total_sents = max(new_total, total_sents + 1)\n")]),
    ('e01-dedupe', 'C01', [(PI, "        tokens = [token_lists for group in tokens for token_lists in group]\n", "        tokens = [token_lists for group in tokens for token_lists in group if token_lists]\n")]),
    ('e05-late', 'C05', [(PI, "        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]", "        return [tokens[:cfg.MAX_SENT_LENGTH] for tokens in new_token_lists]")]),
    ('e05-sub', 'C05', [(PI, "lambda x: x in self.__splitters)", "lambda x: x[0] in self.__splitters)")]),
    ('e33-text', 'C33', [(LP, "self.__lemmatize(node.standard, node.tag)", "self.__lemmatize(node.text, node.tag)")]),
    ('e33-fixorder', 'C33', [(LP, "        for node in node_dict.values():\n            self.__fix(node, node_tree)\n        if chunk", "        for node in reversed(list(node_dict.values())):\n            self.__fix(node, node_tree)\n        if chunk")]),
    ('e33-pps', 'C33', [(LP, "SemanticTupleExtractor(language_model, reversed_pps)", "SemanticTupleExtractor(language_model, pps)")]),
    ('e02-alias', 'C02', [(MU, "        return [[full_list] for full_list in items]\n", "        return [[full_list] for full_list in items[:nb_lists - 1]]\n")]),
    ('e02-round', 'C02', [(MU, "items[int(ranges[i]):int(ranges[i + 1])]", "items[int(round(ranges[i])):int(ranges[i + 1])]")]),
    ('e30-append', 'C30', [(MU, "            dic[key1][key2] = [item]\n", "            dic[key1] = {key2: [item]}\n")]),
]
