"""Sixth battery of bugs, written from the statements alone: the shapes a maintainer's 'small improvement' takes
(deduplication, shortcuts, caching, early exits, generators, limits)."""
E = [
    # C01
    ('f01-dedup', 'C01', [('pipeline/pipeline.py', "            for stuple_list in stuple_lists[start:end]:\n                sentence = Sentence()", "            seen = []\n            for stuple_list in stuple_lists[start:end]:\n                if stuple_list and stuple_list in seen:\n                    continue\n                seen.append(stuple_list)\n                sentence = Sentence()")]),
    ('f01-emptysent', 'C01', [('pipeline/pipeline.py', "                sentence.stuples = stuple_list\n                doc.sentences.append(sentence)", "                sentence.stuples = stuple_list\n                if stuple_list:\n                    doc.sentences.append(sentence)")]),
    ('f01-sameobj', 'C01', [('pipeline/pipeline.py', "        docs = []\n        for start, end in sent_ranges:\n            doc = Document()", "        docs = []\n        doc = Document()\n        for start, end in sent_ranges:\n            if end > start:\n                doc = Document()")]),
    ('f01-setstrip', 'C01', [('pipeline/pipeline.py', "        tokens = run_multithreads(texts, self.__sentencize, self.__nb_processes)\n", "        texts = [text for text in texts if text]\n        tokens = run_multithreads(texts, self.__sentencize, self.__nb_processes)\n")]),
    # C02
    ('f02-slices', 'C02', [('utils/mutables.py', "    return [items[i:i + nb_items_per_batch] for i in range(0, len(items), nb_items_per_batch)]", "    nb_batches = max(1, len(items) // nb_items_per_batch)\n    size = -(-len(items) // nb_batches)\n    return [items[i:i + nb_items_per_batch] for i in range(0, len(items), size or 1)]")]),
    ('f02-ceil', 'C02', [('utils/mutables.py', "            result.append(items[int(ranges[i]):int(ranges[i + 1])])", "            result.append(items[int(ranges[i]):int(np.ceil(ranges[i + 1]))])")]),
    ('f02-asdone', 'C02', [('utils/multithreading.py', "    for idx, _ in enumerate(items_lists):\n        nb_threads[idx].join()\n        output_items.extend(nb_threads[idx].output_items)", "    pending = list(nb_threads)\n    while pending:\n        for thread in list(pending):\n            thread.join(0.01)\n            if not thread.is_alive():\n                output_items.extend(thread.output_items)\n                pending.remove(thread)")]),
    ('f02-sharedout', 'C02', [('utils/multithreading.py', "            self.output_items = [self.__process(item) for item in self.__input_items]", "            self.output_items = [self.__process(item) for item in dict.fromkeys(self.__input_items)] if len(self.__input_items) > 64 else [self.__process(item) for item in self.__input_items]")]),
    ('f02-ranges', 'C02', [('langmodel/smoother.py', "        marks = np.linspace(0, nb_samples, self._nb_processes + 1, dtype=int)", "        step = max(1, nb_samples // self._nb_processes)\n        marks = [min(nb_samples, i * step) for i in range(self._nb_processes + 1)]")]),
    # C03
    ('f03-exit', 'C03', [('utils/multithreading.py', "        except BaseException as error:\n            self.error = error", "        except Exception as error:\n            self.error = error")]),
    ('f03-keyerr', 'C03', [('utils/multithreading.py', "        if thread.error is not None:\n            raise thread.error", "        if thread.error is not None and not thread.output_items:\n            raise RuntimeError(str(thread.error))")]),
    # C04
    ('f04-nextlist', 'C04', [('langmodel/language_model.py', "                return self.__next_tokens[' '.join(tokens[-i:])][:limit]", "                next_tokens = self.__next_tokens[' '.join(tokens[-i:])]\n                if limit is not None:\n                    del next_tokens[limit:]\n                return next_tokens")]),
    ('f04-quotes', 'C04', [('preprocessing/sentencizer.py', "    def __call__(self, text):\n        \"\"\"Returns a list of lists of tokens\"\"\"\n        quotes = []", "    def __call__(self, text, quotes=[]):\n        \"\"\"Returns a list of lists of tokens\"\"\"")]),
    ('f04-irregular', 'C04', [('normalization/inflector.py', "                    if best:\n                        return best", "                    if best:\n                        self.__lemma_pp.setdefault(lemma + lemma[-1], best)\n                        return best")]),
    # C05
    ('f05-stripped', 'C05', [('pipeline/pipeline.py', "if len(tokens) > cfg.MAX_SENT_LENGTH:\n                new", "if len([t for t in tokens if t not in self.__splitters]) > cfg.MAX_SENT_LENGTH:\n                new")]),
    ('f05-single', 'C05', [('pipeline/pipeline.py', "        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]", "        return [tokens for tokens in new_token_lists if 1 < len(tokens) <= cfg.MAX_SENT_LENGTH or len(new_token_lists) == len(token_lists)]")]),
    ('f05-padded', 'C05', [('syntax/training_samples.py', "    if len(tokens) > cfg.MAX_SENT_LENGTH:\n        raise", "    if len(tokens) > cfg.PADDED_SENT_LENGTH:\n        raise")]),
    # C06
    ('f06-list', 'C06', [('semantics/semantic_tuple_extractor.py', "for node in set(nodes)]) % 2 == 0", "for node in {n.canon: n for n in nodes}.values()]) % 2 == 0")]),
    ('f06-allsubj', 'C06', [('semantics/semantic_tuple_extractor.py', "xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)", "xnor(any([subj.is_aff for subj in verb.subjs]), verb.is_aff, obj.is_aff)")]),
    ('f06-agentcop', 'C06', [('semantics/semantic_tuple_extractor.py', "is_aff = xnor(agent.is_aff, copula.is_aff, prop.is_aff, noun.is_aff)", "is_aff = xnor(agent.is_aff, xnor(copula.is_aff, prop.is_aff), is_aff)")]),
    # C07
    ('f07-obj1intr', 'C07', [('semantics/semantic_tuple_extractor.py', "                        obj_1_arg = Argument(obj_1.canon, ArgCode.COP.value)", "                        obj_1_arg = Argument(obj_1.canon, ArgCode.COP.value if not obj_1.objs else ArgCode.TRANS.value)")]),
    ('f07-numnoun', 'C07', [('semantics/semantic_tuple_extractor.py', "    if noun.tag == Tag.NUM:\n        return ArgCode.NUM.value", "    if noun.tag == Tag.NUM and noun.canon.isdigit():\n        return ArgCode.NUM.value")]),
    # C08
    ('f08-lemma', 'C08', [('semantics/semantic_tuple_extractor.py', "                pp = self.__inflector.past_participle(verb.lemma)\n                if verb.particles:\n                    pp", "                pp = self.__inflector.past_participle(verb.canon)\n                if verb.particles and ' ' not in pp:\n                    pp")]),
    ('f08-particles', 'C08', [('semantics/semantic_tuple_extractor.py', "            if verb.particles:\n                pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)\n            copula_arg", "            if verb.particles:\n                pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles[:1])\n            copula_arg")]),
    # C09
    ('f09-dedup', 'C09', [('semantics/semantic_tuple_extractor.py', "        return stuples\n\n    def __make_stuples_from_verbs_subjs_objs", "        unique = {}\n        for stuple in stuples:\n            unique.setdefault(str(stuple), stuple)\n        return list(unique.values())\n\n    def __make_stuples_from_verbs_subjs_objs")]),
    ('f09-blocksubj', 'C09', [('semantics/semantic_tuple_extractor.py', "                blocked_for_next_round.add(obj_1)\n                if not obj_1.subjs:\n                    subjs_2 = [subj_1]  # e.g. \"I want to sing\"\n                else:\n", "                if not obj_1.subjs:\n                    subjs_2 = [subj_1]  # e.g. \"I want to sing\"\n                    blocked_for_next_round.add(obj_1)\n                else:\n                    if obj_1.objs or obj_1.props:\n                        blocked_for_next_round.add(obj_1)\n")]),
    ('f09-have', 'C09', [('semantics/semantic_tuple_extractor.py', "        if verb.canon not in self.__not_passive:", "        if verb.lemma not in self.__not_passive:")]),
    ('f09-elsenoun', 'C09', [('semantics/semantic_tuple_extractor.py', "        for node in [n for n in nodes if n not in blocked_for_round_2]:", "        for node in set(nodes) - blocked_for_round_2:")]),
    # C10
    ('f10-firstsubj', 'C10', [('syntax/arg_finder.py', "        for o, ip in [(o, ip) for o in obj.aggreg for ip in iprop.aggreg]:", "        for o, ip in zip(obj.aggreg, iprop.aggreg):")]),
    ('f10-markprop', 'C10', [('syntax/arg_finder.py', "    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS)]:\n", "    if tree.has_child_via_set(prop, MARKER_DEPS):\n        return\n    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg]:\n")]),
    ('f10-agentset', 'C10', [('syntax/arg_finder.py', "                    describee.agents.append(cpl)", "                    if cpl.canon not in [a.canon for a in describee.agents]:\n                        describee.agents.append(cpl)")]),
    # C11
    ('f11-ownsubj', 'C11', [('syntax/arg_finder.py', "    for v in verb.cconjs:\n        if not tree.has_child_via(v, Dep.SUBJ):\n            verbs.append(v)", "    for v in verb.cconjs:\n        if tree.has_child_via(v, Dep.SUBJ):\n            break\n        verbs.append(v)")]),
    ('f11-nodup', 'C11', [('syntax/arg_finder.py', "        v.objs.extend(obj.aggreg)", "        v.objs.extend([o for o in obj.aggreg if o not in v.subjs])")]),
    ('f11-relfirst', 'C11', [('syntax/arg_finder.py', "                    ref = self.__resolve_relative_pron(parent, node, tree) or \\\n                          self.__resolve_obj_reflexive_pron(parent, node, tree)", "                    ref = self.__resolve_obj_reflexive_pron(parent, node, tree) if parent.subjs else \\\n                          self.__resolve_relative_pron(parent, node, tree)")]),
    # C12
    ('f12-last', 'C12', [('syntax/arg_finder.py', "                if dep == Dep.NEG:\n                    node.is_aff = False", "                if dep == Dep.NEG:\n                    node.is_aff = not node.is_aff")]),
    # C13
    ('f13-partcase', 'C13', [('syntax/nodifier.py', "                    elif tokens[i].lower() == 'to':", "                    elif tokens[i] == 'to':")]),
    ('f13-flattag', 'C13', [('syntax/nodifier.py', "Node(idx, cfg.COMPOUND_JOIN.join(flat_tokens), tags[idx])", "Node(anc_idx, cfg.COMPOUND_JOIN.join(flat_tokens), tags[idx])")]),
    ('f13-flatpart', 'C13', [('syntax/nodifier.py', "            if particle_idxs:\n                bl_idxs", "            if particle_idxs and idx not in bl_idxs:\n                bl_idxs")]),
    # C14
    ('f14-depth', 'C14', [('syntax/chunker.py', "            nouns.append(_cnoun)\n            _chunk_recursive(_cnoun)", "            nouns.append(_cnoun)\n            for _nested in compound_nouns.get(_cnoun, []):\n                nouns.append(_nested)")]),
    ('f14-sortlemma', 'C14', [('syntax/chunker.py', "    nouns.sort(key=lambda x: x.idx)", "    nouns = sorted({n.lemma: n for n in nouns}.values(), key=lambda x: x.idx)")]),
    # C15
    ('f15-cplany', 'C15', [('syntax/fixer.py', "any([dep == Dep.CPL and parent.tag in NOUN_TAGS, dep in PROP_DEPS])", "any([dep == Dep.CPL and (parent.tag in NOUN_TAGS or parent.lemma in self.__nouns), dep in PROP_DEPS])")]),
    # C16
    ('f16-suffix', 'C16', [('normalization/canonicalizer.py', "            if node.suffix == Suffix.PAST:", "            if node.suffix == Suffix.PAST and lemma != node.lemma:")]),
    # C17
    ('f17-prefixirr', 'C17', [('normalization/lemmatizer.py', "            lemma_suffix = self.__irregular_lemma(base, tag)\n            if lemma_suffix is not None:\n                return prefix", "            lemma_suffix = self.__irregular_lemma(base.lstrip('-'), tag)\n            if lemma_suffix is not None:\n                return prefix")]),
    ('f17-candidates', 'C17', [('normalization/lemmatizer.py', "            return best_ngram.split()[-1]\n        return self.__lm.best_ngram(*candidates)", "            return best_ngram.split()[-1]\n        return self.__lm.best_ngram(*candidates) or candidates[0]")]),
    # C18
    ('f18-count', 'C18', [('normalization/standardizer.py', "        if self.__lm.has_ngram(token, 5):", "        if self.__lm.has_ngram(token.lower(), 5):")]),
    # C19
    ('f19-ie', 'C19', [('normalization/inflector.py', "            if len(lemma) > 2:\n                if lemma[-3] in CONSONANTS", "            if len(lemma) > 3:\n                if lemma[-3] in CONSONANTS")]),
    # C20
    ('f20-tie', 'C20', [('langmodel/language_model.py', "        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)\n        return token_logp_tuples[0][0]", "        token_logp_tuples.sort(key=lambda x: x[1])\n        return token_logp_tuples[-1][0]")]),
    ('f20-beforeempty', 'C20', [('langmodel/language_model.py', "            candidates = token_context.candidates(i)\n            if candidates:", "            candidates = [c for c in token_context.candidates(i) if c in self.__ngrams_details]\n            if not candidates:\n                continue\n            if candidates:")]),
    ('f20-zero', 'C20', [('langmodel/language_model.py', "        if min_count < 1:\n            return False\n", "        if min_count < 1:\n            return True\n")]),
    # C21
    ('f21-prec', 'C21', [('langmodel/language_model_builder.py', "%s\\t%d\\t%.17f\\n", "%s\\t%d\\t%.12g\\n")]),
    ('f21-minprob', 'C21', [('langmodel/language_model_builder.py', "if ngram.proba > 0.0:", "if round(ngram.proba, 17) > 0.0 and ngram.text.strip():")]),
    # C22
    ('f22-adj', 'C22', [('langmodel/ngrams_extraction.py', "        ngrams.extend([ngram.lower() for ngram in filtered_ngrams])", "        for ngram in filtered_ngrams:\n            if not ngrams or ngrams[-1] != ngram.lower():\n                ngrams.append(ngram.lower())")]),
    ('f22-store', 'C22', [('langmodel/ngram_store.py', "        if text in self.__store:\n            ngram = self.__store[text]\n            ngram.count += 1\n            return ngram\n        ngram = Ngram(text)\n        self.__store[text] = ngram\n        return ngram", "        ngram = self.__store.get(text)\n        if ngram is None:\n            ngram = self.__store[text] = Ngram(text)\n        elif ngram.order > 1 or ngram.count < 2 ** 16:\n            ngram.count += 1\n        return ngram")]),
    # C23
    ('f23-wc3', 'C23', [('langmodel/mkn_smoother.py', "            else:\n                wc3[wc] += 1", "            elif ngram.count == 3:\n                wc3[wc] += 1")]),
    ('f23-order', 'C23', [('langmodel/mkn_smoother.py', "            cl_d = self.__discount(order + 1, cl)", "            cl_d = self.__discount(min(order + 1, self._last_order - 1), cl)")]),
    ('f23-zerodiv', 'C23', [('langmodel/mkn_smoother.py', "    np_cc = np.maximum(np_l_counts - np_discounts, np_zero) / np_lr_counts", "    np_cc = np.maximum(np_l_counts - np_discounts, np_zero) / np.maximum(np_lr_counts, 2)")]),
    # C24
    ('f24-first', 'C24', [('preprocessing/tokenizer.py', "            match = re.search(pattern, text)\n            while match:", "            match = re.search(pattern, text)\n            while match and index < 100:")]),
    ('f24-restore', 'C24', [('preprocessing/tokenizer.py', "            text = text.replace(key, value)\n        return", "            text = text.replace(key, value.strip())\n        return")]),
    # C25
    ('f25-bracketquote', 'C25', [('preprocessing/sentencizer.py', "                            if nested_token.startswith(self.__re_quote_block_start):\n                                _insert", "                            if nested_token == self.__re_quote_block_start + str(idx) + self.__re_quote_block_end:\n                                _insert")]),
    ('f25-emptysent', 'C25', [('preprocessing/sentencizer.py', "                sents.append(current_sent)\n                current_sent = []\n            else", "                if len(current_sent) > 1 or not sents:\n                    sents.append(current_sent)\n                current_sent = []\n            else")]),
    # C26
    ('f26-hasparent', 'C26', [('syntax/parser.py', "        return any([child_idx == idx for _, _, child_idx in self.arcs])", "        return bool(self.arcs) and self.arcs[-1][2] == idx")]),
    ('f26-rightparent', 'C26', [('syntax/parser.py', "        elif trans == Trans.RIGHT:\n            self.arcs.append", "        elif trans == Trans.RIGHT:\n            if self.__deps[self.__stack[-1]] != Dep.ROOT or not self.arcs:\n              self.arcs.append")]),
    # C27
    ('f27-arcbefore', 'C27', [('syntax/labelled_data.py', "        for _, child_idx in self.tree.children(token_idx):\n            if child_idx < max_idx:\n                return True\n        return False", "        children = self.tree.children(token_idx)\n        return bool(children) and children[0][1] < max_idx")]),
    # C28
    ('f28-trunc', 'C28', [('syntax/training_samples.py', "    if len(token) > cfg.MAX_WORD_LENGTH:\n        token = token[len(token) - cfg.MAX_WORD_LENGTH:]  # Truncate beginning of word if too long\n    token = '†' + token + '‡'", "    token = ('†' + token + '‡')[-cfg.PADDED_WORD_LENGTH:]")]),
    ('f28-last', 'C28', [('syntax/training_samples.py', "    array = np.array(array[-dim:], dtype=np.int32)\n    result[:len(array)] = array", "    array = np.array(array[-dim:], dtype=np.int32)\n    result[:len(array) - 1] = array[:-1]\n    result[len(array) - 1:len(array)] = array[-1:] if len(array) < dim else 0")]),
    # C30
    ('f30-siblabel', 'C30', [('utils/tree.py', "                    if child != node:\n                        siblings.append((label, child))", "                    if child is not node:\n                        siblings.append((label, child))")]),
    ('f30-alias', 'C30', [('utils/tree.py', "            return [(label, child) for label, children in self.__children[node].items() for child in children]", "            return sorted(((label, child) for label, children in self.__children[node].items() for child in children), key=lambda x: x[1])")]),
    # C31
    ('f31-strip', 'C31', [('utils/files.py', "with", "with")]),
    # C32
    ('f32-stuples', 'C32', [('pipeline/document.py', "return [stuple for sent in self.sentences for stuple in sent.stuples]", "return [stuple for sent in self.sentences if sent.stuples for stuple in dict.fromkeys(sent.stuples)]")]),
    # C33
    ('f33-lazy', 'C33', [('pipeline/pipeline.py', "        return tags, trees, node_dicts, stuples\n", "        return tags, trees, node_dicts, stuples\n")]),
    # C34
    ('f34-skip', 'C34', [('langmodel/language_model_builder.py', "                    batch.append(next(text_iterator))\n                    nb_texts += 1", "                    text = next(text_iterator)\n                    nb_texts += 1\n                    if text not in batch:\n                        batch.append(text)")]),
    ('f34-empty', 'C34', [('langmodel/language_model_builder.py', "                    batch.append(next(text_iterator))\n                    nb_texts += 1", "                    text = next(text_iterator)\n                    if not text:\n                        consumed = True\n                        break\n                    batch.append(text)\n                    nb_texts += 1")]),
    ('f34-order', 'C34', [('langmodel/language_model_builder.py', "                for n in range(1, self.__max_order + 1):\n                    for ngram", "                for n in range(1, min(self.__max_order, max(map(len, text_tokens), default=1) - 1) + 1):\n                    for ngram")]),
]
E = [e for e in E if e[0] not in ('f31-strip', 'f33-lazy')]
