"""Refactorings that keep the behaviour: language model, normalization, preprocessing, parser, training data."""
NE = 'langmodel/ngrams_extraction.py'
LM = 'langmodel/language_model.py'
LB = 'langmodel/language_model_builder.py'
MK = 'langmodel/mkn_smoother.py'
ML = 'langmodel/mle_smoother.py'
NG = 'langmodel/ngram.py'
NS = 'langmodel/ngram_store.py'
TC = 'langmodel/token_context.py'
TK = 'preprocessing/tokenizer.py'
SZ = 'preprocessing/sentencizer.py'
TX = 'utils/text.py'
PA = 'syntax/parser.py'
LD = 'syntax/labelled_data.py'
TS = 'syntax/training_samples.py'
TG = 'syntax/tagger.py'
CH = 'syntax/charset.py'
WS = 'syntax/wordset.py'
CA = 'normalization/canonicalizer.py'
IN = 'normalization/inflector.py'
LE = 'normalization/lemmatizer.py'
SD = 'normalization/standardizer.py'
ST = 'semantics/semantic_tuple.py'
AR = 'semantics/argument.py'
MO = 'syntax/models.py'

E = [
    # ---- ngrams extraction
    ('s-ne-valid', None, [(NE, '''    if any([not has_only_letters(token), starts_with_uppercase_letter(token)]):
        return False
    return True
''', '''    return has_only_letters(token) and not starts_with_uppercase_letter(token)
''')]),
    ('s-ne-edge', None, [(NE, '''    # Edge cases
    if not token:
        return False
    if token == 'I':
        return True
    # Validate
    if any([not has_only_letters(token), starts_with_uppercase_letter(token)]):
        return False
    return True
''', '''    if token == 'I':
        return True
    if not token or not has_only_letters(token):
        return False
    return not starts_with_uppercase_letter(token)
''')]),
    ('s-ne-all', None, [(NE, "    return all([_valid_ngram_token(token) for token in tokens])\n", '''    for token in tokens:
        if not _valid_ngram_token(token):
            return False
    return True
''')]),
    ('s-ne-loop', None, [(NE, '''        filtered_ngrams = [' '.join(ngram_tokens) for ngram_tokens in ngrams_tokens if _valid_tokens(ngram_tokens)]
        ngrams.extend([ngram.lower() for ngram in filtered_ngrams])
''', '''        for ngram_tokens in ngrams_tokens:
            if _valid_tokens(ngram_tokens):
                ngrams.append(' '.join(ngram_tokens).lower())
''')]),
    ('s-ne-zip', None, [(NE, '''            ngrams_tokens = [ngram_tokens for ngram_tokens in zip(*[token_list[i:] for i in range(order)])]
''', '''            ngrams_tokens = list(zip(*[token_list[i:] for i in range(order)]))
''')]),
    ('s-ne-helper', None, [(NE, '''        if order == 1:
            ngrams_tokens = [[token] for token in token_list]
        else:
            ngrams_tokens = [ngram_tokens for ngram_tokens in zip(*[token_list[i:] for i in range(order)])]
        filtered''', '''        ngrams_tokens = _windows(token_list, order)
        filtered'''), (NE, '''def extract_ngrams(''', '''def _windows(token_list, order):
    if order == 1:
        return [[token] for token in token_list]
    return [window for window in zip(*[token_list[i:] for i in range(order)])]


def extract_ngrams(''')]),
    ('s-ne-gen', None, [(NE, '''    ngrams = []
    for token_list in token_lists:
''', '''    return list(_iter_ngrams(token_lists, order))


def _iter_ngrams(token_lists, order):
    for token_list in token_lists:
'''), (NE, '''        ngrams.extend([ngram.lower() for ngram in filtered_ngrams])
    return ngrams
''', '''        for ngram in filtered_ngrams:
            yield ngram.lower()
''')]),
    # ---- language model
    ('s-lm-load', None, [(LM, '''        for idx, min_count in enumerate(min_counts):
            order = idx + 1
            with''', '''        for order, min_count in enumerate(min_counts, 1):
            with''')]),
    ('s-lm-load2', None, [(LM, '''                for text, count, proba in [line.split('\\t') for line in text_file]:
                    count = int(count)
                    if count >= min_count:
                        proba = float(proba)
                        self.__ngrams_details[text] = (count, proba, math.log(proba))
''', '''                for line in text_file:
                    text, count, proba = line.split('\\t')
                    count = int(count)
                    if count < min_count:
                        continue
                    proba = float(proba)
                    self.__ngrams_details[text] = (count, proba, math.log(proba))
''')]),
    ('s-lm-loadhelper', None, [(LM, '''            with txt_file_reader('langmodel', ('%d_grams.txt' % order)) as text_file:
                for text, count, proba in [line.split('\\t') for line in text_file]:
                    count = int(count)
                    if count >= min_count:
                        proba = float(proba)
                        self.__ngrams_details[text] = (count, proba, math.log(proba))
''', '''            self.__load_order(order, min_count)
'''), (LM, '''    def __len__(self):
''', '''    def __load_order(self, order, min_count):
        with txt_file_reader('langmodel', '{}_grams.txt'.format(order)) as text_file:
            for line in text_file:
                text, count, proba = line.split('\\t')
                if int(count) >= min_count:
                    self.__ngrams_details[text] = (int(count), float(proba), math.log(float(proba)))

    def __len__(self):
''')]),
    ('s-lm-next', None, [(LM, '''        if self.__max_order > 1:
            for ngram, details in self.__ngrams_details.items():
                tokens = ngram.split()
                if len(tokens) > 1:
                    append_to_dict_list(self.__next_tokens, ' '.join(tokens[:-1]), (tokens[-1], details[1]))
        for ngram, next_tokens in self.__next_tokens.items():
            next_tokens.sort(key=lambda x: x[1], reverse=True)
''', '''        if self.__max_order > 1:
            for ngram, (_, proba, _) in self.__ngrams_details.items():
                *context, token = ngram.split()
                if context:
                    append_to_dict_list(self.__next_tokens, ' '.join(context), (token, proba))
        for next_tokens in self.__next_tokens.values():
            next_tokens.sort(key=lambda x: x[1], reverse=True)
''')]),
    ('s-lm-nextsort', None, [(LM, '''        for ngram, next_tokens in self.__next_tokens.items():
            next_tokens.sort(key=lambda x: x[1], reverse=True)
''', '''        for next_tokens in self.__next_tokens.values():
            next_tokens.sort(key=lambda token_proba: token_proba[1], reverse=True)
''')]),
    ('s-lm-nextsetdefault', None, [(LM, "append_to_dict_list(self.__next_tokens, ' '.join(tokens[:-1]), (tokens[-1], details[1]))", "self.__next_tokens.setdefault(' '.join(tokens[:-1]), []).append((tokens[-1], details[1]))")]),
    ('s-lm-sortedtop', None, [(LM, '''        sorted_ngrams = sorted(ngrams, key=lambda x: x[2], reverse=True)
        return sorted_ngrams[:limit]
''', '''        ngrams.sort(key=lambda x: x[2], reverse=True)
        return ngrams[:limit]
''')]),
    ('s-lm-top', None, [(LM, '''        ngrams = []
        for ngram, details in self.__ngrams_details.items():
            if len(ngram.split()) == order:
                ngrams.append((ngram, *details[:-1]))
''', '''        ngrams = [(ngram, details[0], details[1]) for ngram, details in self.__ngrams_details.items()
                  if len(ngram.split()) == order]
''')]),
    ('s-lm-nextword', None, [(LM, '''            try:
                return self.__next_tokens[' '.join(tokens[-i:])][:limit]
            except KeyError:
                continue
        return []
''', '''            context = ' '.join(tokens[-i:])
            if context in self.__next_tokens:
                return self.__next_tokens[context][:limit]
        return []
''')]),
    ('s-lm-nextget', None, [(LM, '''            try:
                return self.__next_tokens[' '.join(tokens[-i:])][:limit]
            except KeyError:
                continue
''', '''            next_tokens = self.__next_tokens.get(' '.join(tokens[-i:]))
            if next_tokens is not None:
                return next_tokens[:limit]
''')]),
    ('s-lm-any', None, [(LM, "        if not any([token in self.__ngrams_details for token in tokens]):\n            return None\n        tokens_before", "        if all(token not in self.__ngrams_details for token in tokens):\n            return None\n        tokens_before")]),
    ('s-lm-logps', None, [(LM, '''            candidates = token_context.candidates(i)
            if candidates:
                probas.append(max([self.__logp(ngram) for ngram in candidates]))
            else:
                probas.append(float('-inf'))
''', '''            candidates = token_context.candidates(i)
            if not candidates:
                probas.append(float('-inf'))
                continue
            probas.append(max(self.__logp(ngram) for ngram in candidates))
''')]),
    ('s-lm-bestngram', None, [(LM, '''        token_logp_tuples = [(ngram, self.__logp(ngram)) for ngram in ngrams]
        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)
        return token_logp_tuples[0][0]
''', '''        return sorted([(ngram, self.__logp(ngram)) for ngram in ngrams], key=lambda x: x[1], reverse=True)[0][0]
''')]),
    ('s-lm-bestmax', None, [(LM, '''        token_logp_tuples = [(ngram, self.__logp(ngram)) for ngram in ngrams]
        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)
        return token_logp_tuples[0][0]
''', '''        return max(ngrams, key=self.__logp)
''')]),
    ('s-lm-besttoken', None, [(LM, '''        token_contexts = [TokenContext(token, tokens_before, tokens_after) for token in tokens]
        tprobas = {tuple(self.__logps(token_context)): idx for idx, token_context in enumerate(token_contexts)}
        return tokens[tprobas[max(tprobas.keys())]]
''', '''        tprobas = {}
        for token in tokens:
            context = TokenContext(token, tokens_before, tokens_after)
            tprobas[tuple(self.__logps(context))] = token
        return tprobas[max(tprobas)]
''')]),
    ('s-lm-has', None, [(LM, '''        if min_count < 1:
            return False
        return self.__ngrams_details.get(ngram, self.__unk)[0] >= min_count
''', '''        count = self.__ngrams_details.get(ngram, self.__unk)[0]
        return min_count >= 1 and count >= min_count
''')]),
    ('s-lm-has2', None, [(LM, "        return self.__ngrams_details.get(ngram, self.__unk)[0] >= min_count\n", '''        if ngram not in self.__ngrams_details:
            return False
        count, _, _ = self.__ngrams_details[ngram]
        return count >= min_count
''')]),
    ('s-lm-logp', None, [(LM, "        return self.__ngrams_details.get(ngram, self.__unk)[2]\n", '''        try:
            return self.__ngrams_details[ngram][2]
        except KeyError:
            return self.__unk[2]
''')]),
    # ---- builder
    ('s-lb-check', None, [(LB, '''        if smoothing == 'modified_kneser_ney' and max_order < 2:
            raise ModifiedKneserNeyMinOrderError()
''', '''        is_mkn = smoothing == 'modified_kneser_ney'
        if is_mkn and max_order < 2:
            raise ModifiedKneserNeyMinOrderError()
'''), (LB, '''        if smoothing == 'modified_kneser_ney':
            self.__smoother = MKNSmoother
        else:
            self.__smoother = MLESmoother
''', "        self.__smoother = MKNSmoother if is_mkn else MLESmoother\n")]),
    ('s-lb-batch', None, [(LB, '''            batch = []
            for i in range(self.__nb_processes):
                try:
                    batch.append(next(text_iterator))
                    nb_texts += 1
                except StopIteration:
                    consumed = True
                    break
''', '''            batch = []
            for _ in range(self.__nb_processes):
                try:
                    text = next(text_iterator)
                except StopIteration:
                    consumed = True
                    break
                batch.append(text)
                nb_texts += 1
''')]),
    ('s-lb-register', None, [(LB, '''            for text_tokens in texts_tokens:
                for n in range(1, self.__max_order + 1):
                    for ngram in extract_ngrams(text_tokens, n):
                        store.make_ngram(ngram)
''', '''            for text_tokens in texts_tokens:
                self.__register_text(store, text_tokens)
'''), (LB, '''    def __write_ngram_file''', '''    def __register_text(self, store, text_tokens):
        for order in range(1, self.__max_order + 1):
            for ngram in extract_ngrams(text_tokens, order):
                store.make_ngram(ngram)

    def __write_ngram_file''')]),
    ('s-lb-write', None, [(LB, '''            for ngram in sorted(ngrams, reverse=True):
                if ngram.proba > 0.0:
                    writer.write('%s\\t%d\\t%.17f\\n' % (ngram.text, ngram.count, ngram.proba))
''', '''            for ngram in [ngram for ngram in sorted(ngrams, reverse=True) if ngram.proba > 0.0]:
                line = '%s\\t%d\\t%.17f\\n' % (ngram.text, ngram.count, ngram.proba)
                writer.write(line)
''')]),
    ('s-lb-write2', None, [(LB, '''                if ngram.proba > 0.0:
                    writer.write(''', '''                if not ngram.proba > 0.0:
                    continue
                else:
                    writer.write(''')]),
    # ---- ngram, store
    ('s-ng-str', None, [(NG, '''    def __repr__(self):
        return ' '.join(self.tokens)
''', '''    def __repr__(self):
        return str(self)
''')]),
    ('s-ng-wc', None, [(NG, "        return ' '.join([self.without_last_token, '•'])\n", "        return self.without_last_token + ' •'\n")]),
    ('s-ng-pre', None, [(NG, "        return ' '.join(['•', self.text])\n", "        return '• %s' % self.text\n")]),
    ('s-ng-cont', None, [(NG, '''        wc_last_token = self.wc_last_token
        return ' '.join(['•', wc_last_token])
''', '''        return '• ' + self.wc_last_token
''')]),
    ('s-ng-lower', None, [(NG, "        return ' '.join(self.tokens[self.order - order:])\n", "        start = self.order - order\n        return ' '.join(self.tokens[start:])\n")]),
    ('s-ng-lowerneg', None, [(NG, "        return ' '.join(self.tokens[self.order - order:])\n", "        return ' '.join(self.tokens[-order:])\n")]),
    ('s-ng-gt', None, [(NG, "        return self.proba > other.proba  #", "        return other.proba < self.proba  #")]),
    ('s-ns-get', None, [(NS, '''        if text in self.__store:
            ngram = self.__store[text]
            ngram.count += 1
            return ngram
        ngram = Ngram(text)
        self.__store[text] = ngram
        return ngram''', '''        ngram = self.__store.get(text)
        if ngram is None:
            ngram = Ngram(text)
            self.__store[text] = ngram
        else:
            ngram.count += 1
        return ngram''')]),
    ('s-ns-try', None, [(NS, '''        if text in self.__store:
            ngram = self.__store[text]
            ngram.count += 1
            return ngram
        ngram = Ngram(text)
        self.__store[text] = ngram
        return ngram''', '''        if text not in self.__store:
            self.__store[text] = Ngram(text)
        else:
            self.__store[text].count += 1
        return self.__store[text]''')]),
    # ---- smoothers
    ('s-mk-prepare', None, [(MK, '''        # n counts
        if ngram.count == 1:
            n1[ngram.order] += 1
        elif ngram.count == 2:
            n2[ngram.order] += 1
        elif ngram.count == 3:
            n3[ngram.order] += 1
        elif ngram.count == 4:
            n4[ngram.order] += 1
''', '''        # n counts
        order, count = ngram.order, ngram.count
        if count == 1:
            n1[order] += 1
        elif count == 2:
            n2[order] += 1
        elif count == 3:
            n3[order] += 1
        elif count == 4:
            n4[order] += 1
''')]),
    ('s-mk-table', None, [(MK, '''        if ngram.count == 1:
            n1[ngram.order] += 1
        elif ngram.count == 2:
            n2[ngram.order] += 1
        elif ngram.count == 3:
            n3[ngram.order] += 1
        elif ngram.count == 4:
            n4[ngram.order] += 1
''', '''        for nb, counter in ((1, n1), (2, n2), (3, n3), (4, n4)):
            if ngram.count == nb:
                counter[ngram.order] += 1
''')]),
    ('s-mk-any', None, [(MK, '''        if any([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):
            raise ModifiedKneserNeyNotEnoughDataError()
        else:
            y = n1[order] / (n1[order] + 2. * n2[order])
            d1[order] = 1. - (2. * y * n2[order] / n1[order])
            d2[order] = 2. - (3. * y * n3[order] / n2[order])
            d3[order] = 3. - (4. * y * n4[order] / n3[order])
''', '''        if not (n1[order] and n2[order] and n3[order] and n4[order]):
            raise ModifiedKneserNeyNotEnoughDataError()
        y = n1[order] / (n1[order] + 2. * n2[order])
        d1[order] = 1. - (2. * y * n2[order] / n1[order])
        d2[order] = 2. - (3. * y * n3[order] / n2[order])
        d3[order] = 3. - (4. * y * n4[order] / n3[order])
''')]),
    ('s-mk-discount', None, [(MK, '''        if countc == 0:
            return 0.0
        if countc == 1:
            return self.__d1[order]
        if countc == 2:
            return self.__d2[order]
        return self.__d3[order]
''', '''        if countc == 0:
            return 0.0
        elif countc == 1:
            discounts = self.__d1
        elif countc == 2:
            discounts = self.__d2
        else:
            discounts = self.__d3
        return discounts[order]
''')]),
    ('s-mk-calc', None, [(MK, '''    np_r1_counts = np_r1_counts * operands[4]
    np_r2_counts = np_r2_counts * operands[6]
    np_r3_counts = np_r3_counts * operands[8]
    np_weight = (np_r1_counts + np_r2_counts + np_r3_counts) / np_lr_counts
''', '''    np_weight = (np_r1_counts * operands[4] + np_r2_counts * operands[6] + np_r3_counts * operands[8]) / np_lr_counts
''')]),
    ('s-mk-unpack', None, [(MK, '''    np_zero = np.zeros(len(operands[0]))
    np_l_counts = operands[0]
    np_discounts = operands[1]
    np_lr_counts = operands[2]
''', '''    np_l_counts, np_discounts, np_lr_counts = operands[0], operands[1], operands[2]
    np_zero = np.zeros(len(np_l_counts))
''')]),
    ('s-mk-lookup', None, [(MK, '''        for lm_ngram in [ngram for i in lm_ngrams for ngram in lm_ngrams[i]]:
            self.__ngrams_lookup[lm_ngram.text] = lm_ngram
''', '''        for order_ngrams in lm_ngrams.values():
            for lm_ngram in order_ngrams:
                self.__ngrams_lookup[lm_ngram.text] = lm_ngram
''')]),
    ('s-mk-slices', None, [(MK, '''        data_slices = []
        for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
            data_slices.append(_DataSlice(self.__mkn_arrays(order, order, process_range)))
        return''', '''        nb_ngrams = len(self._ngrams.get(order, []))
        data_slices = [_DataSlice(self.__mkn_arrays(order, order, process_range))
                       for process_range in self._process_ranges(nb_ngrams)]
        return''')]),
    ('s-mk-zip', None, [(MK, '''        np_probas = self.calc_unigram_probas()
        for idx, proba in enumerate(np_probas):
            self._ngrams[1][idx].proba = proba
''', '''        for idx, proba in enumerate(self.calc_unigram_probas()):
            self._ngrams[1][idx].proba = proba
''')]),
    ('s-ml-total', None, [(ML, '''            ngrams = self._ngrams.get(order, [])
            for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                np_counts = np.array([ngrams[i].count for i in process_range])
                data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
''', '''            ngrams = self._ngrams.get(order, [])
            total_count = self.__total_counts[order]
            for process_range in self._process_ranges(len(ngrams)):
                data_slices.append(_DataSlice(np.array([ngrams[i].count for i in process_range]), total_count))
''')]),
    ('s-ml-assign', None, [(ML, '''            for idx, proba in enumerate(np_probas):
                self._ngrams[order][idx].proba = proba
''', '''            for idx, proba in enumerate(np_probas):
                ngrams[idx].proba = proba
''')]),
    # ---- tokenizer
    ('s-tk-subs', None, [(TK, '''        for nsp in self.__re_no_split:
            text = re.sub(nsp[0], nsp[1], text)
''', '''        for pattern, replacement in self.__re_no_split:
            text = pattern.sub(replacement, text)
''')]),
    ('s-tk-helper', None, [(TK, '''        for nsp in self.__re_no_split:
            text = re.sub(nsp[0], nsp[1], text)
''', '''        text = self.__replace_all(self.__re_no_split, text)
'''), (TK, '''        for replace in self.__re_reattach:
            text = re.sub(replace[0], replace[1], text)
''', '''        text = self.__replace_all(self.__re_reattach, text)
'''), (TK, '''    def __protect_text(''', '''    @staticmethod
    def __replace_all(patterns, text):
        for pattern, replacement in patterns:
            text = re.sub(pattern, replacement, text)
        return text

    def __protect_text(''')]),
    ('s-tk-any', None, [(TK, '''            if any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):
                tokens.append(token)
            else:
                for pattern, rep in self.__re_token_split_dot:
                    token = re.sub(pattern, rep, token)
                tokens.extend(token.split())
''', '''            if any(regex.fullmatch(token) for regex in self.__re_token_nosplit_dot):
                tokens.append(token)
                continue
            for pattern, rep in self.__re_token_split_dot:
                token = pattern.sub(rep, token)
            tokens += token.split()
''')]),
    ('s-tk-method', None, [(TK, '''        tokens = []
        for token in text.split():
            if any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):
                tokens.append(token)
            else:
                for pattern, rep in self.__re_token_split_dot:
                    token = re.sub(pattern, rep, token)
                tokens.extend(token.split())
        text = ' '.join(tokens)
''', '''        tokens = []
        for token in text.split():
            tokens.extend(self.__split_dots(token))
        text = ' '.join(tokens)
'''), (TK, '''    def __protect_text(''', '''    def __split_dots(self, token):
        if any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):
            return [token]
        for pattern, rep in self.__re_token_split_dot:
            token = re.sub(pattern, rep, token)
        return token.split()

    def __protect_text(''')]),
    ('s-tk-protect', None, [(TK, '''            match = re.search(pattern, text)
            while match:
                token = match.group()
                key = '_PROTECTED_%d_' % index
                protected[key] = token
                text = text.replace(token, key)
                match = re.search(pattern, text)
                index += 1
''', '''            match = pattern.search(text)
            while match is not None:
                key = '_PROTECTED_{}_'.format(index)
                protected[key] = match.group(0)
                text = text.replace(match.group(0), key)
                index += 1
                match = pattern.search(text)
''')]),
    ('s-tk-protect2', None, [(TK, '''            match = re.search(pattern, text)
            while match:
                token = match.group()
                key = '_PROTECTED_%d_' % index
                protected[key] = token
                text = text.replace(token, key)
                match = re.search(pattern, text)
                index += 1
''', '''            while True:
                match = re.search(pattern, text)
                if not match:
                    break
                token = match.group()
                key = '_PROTECTED_%d_' % index
                protected[key] = token
                text = text.replace(token, key)
                index += 1
''')]),
    ('s-tk-index', None, [(TK, '''        index = 1
        for pattern in''', '''        for pattern in'''), (TK, '''                key = '_PROTECTED_%d_' % index
''', '''                key = '_PROTECTED_%d_' % (len(protected) + 1)
'''), (TK, '''                index += 1
''', '')]),
    ('s-tk-restore', None, [(TK, '''        for key, value in reversed(list(protected.items())):
            text = text.replace(key, value)
        return text.split()
''', '''        for key in reversed(list(protected)):
            text = text.replace(key, protected[key])
        return text.split()
''')]),
    ('s-tk-empty', None, [(TK, '''        if not text:
            return ['']
''', '''        if len(text or '') == 0:
            return ['']
''')]),
    # ---- sentencizer
    ('s-sz-blocks', None, [(SZ, '''        blocks = re.split(self.__re_newline, text)
        blocks = [sanitize(block, self.__re_sanitization) for block in blocks]
''', '''        blocks = [sanitize(block, self.__re_sanitization) for block in self.__re_newline.split(text)]
''')]),
    ('s-sz-split', None, [(SZ, '''            if re.fullmatch(self.__re_sent_enders, token):
                if token != '¶':
                    current_sent.append(token)
                sents.append(current_sent)
                current_sent = []
            else:
                current_sent.append(token)
        if current_sent:
''', '''            is_ender = re.fullmatch(self.__re_sent_enders, token)
            if token != '¶':
                current_sent.append(token)
            if is_ender:
                sents.append(current_sent)
                current_sent = []
        if len(current_sent) > 0:
''')]),
    ('s-sz-find', None, [(SZ, '''        for quote, sidx, eidx in [(m.group(), m.start(), m.end()) for m in re.finditer(pattern, text)]:
            ctr.append(quote[1:-1].replace('¶', ' '))
            number = str(len(ctr) - 1)
            text = text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]
            shift += len(quote) - 4 - len(number)
''', '''        for match in re.finditer(pattern, text):
            quote = match.group()
            number = str(len(ctr))
            ctr.append(quote[1:-1].replace('¶', ' '))
            block = ' ' + block_starter + number + block_ender + ' '
            text = text[:match.start() - shift] + block + text[match.end() - shift:]
            shift += len(quote) - 4 - len(number)
''')]),
    ('s-sz-rebuild', None, [(SZ, '''                sent_tokens_with_blocks = []
                for token in sent_tokens:
                    if token.startswith(self.__re_quote_block_start):
                        _insert_quote_block(token, sent_tokens_with_blocks)
                    elif token.startswith(self.__re_bracket_block_start):
                        idx = int(token[1:-1])
                        sent_tokens_with_blocks.append('(')
                        for nested_token in self.__tokenize(brackets[idx]):
                            if nested_token.startswith(self.__re_quote_block_start):
                                _insert_quote_block(nested_token, sent_tokens_with_blocks)
                            else:
                                sent_tokens_with_blocks.append(nested_token)
                        sent_tokens_with_blocks.append(')')
                    else:
                        sent_tokens_with_blocks.append(token)
                token_lists.append(sent_tokens_with_blocks)
''', '''                rebuilt = []
                for token in sent_tokens:
                    if not token.startswith(self.__re_bracket_block_start):
                        _insert(token, rebuilt)
                        continue
                    rebuilt.append('(')
                    for nested_token in self.__tokenize(brackets[int(token[1:-1])]):
                        _insert(nested_token, rebuilt)
                    rebuilt.append(')')
                token_lists.append(rebuilt)
'''), (SZ, '''        blocks = re.split(self''', '''        def _insert(_token, _ctr):
            if _token.startswith(self.__re_quote_block_start):
                _insert_quote_block(_token, _ctr)
            else:
                _ctr.append(_token)

        blocks = re.split(self''')]),
    ('s-sz-quotelist', None, [(SZ, '''            _ctr.append('"')
            _ctr.extend(self.__tokenize(quotes[int(_token[1:-1])]))
            _ctr.append('"')
''', '''            quote_idx = int(_token[1:-1])
            _ctr += ['"'] + self.__tokenize(quotes[quote_idx]) + ['"']
''')]),
    ('s-sz-order', None, [(SZ, '''        quotes = []
        brackets = []
''', '''        brackets, quotes = [], []
''')]),
    # ---- text utilities
    ('s-tx-start', None, [(TX, '''    if token.endswith(ending) and len(token) > len(ending):
        start = token[:-len(ending)]
        if len(start) >= start_min_length:
            return start
    return None
''', '''    if not token.endswith(ending) or len(token) <= len(ending):
        return None
    start = token[:-len(ending)]
    return start if len(start) >= start_min_length else None
''')]),
    ('s-tx-start2', None, [(TX, '''        start = token[:-len(ending)]
        if len''', '''        start = token[:len(token) - len(ending)]
        if len''')]),
    ('s-tx-prefix', None, [(TX, '''    els = token.split('-')
    if len(els) == 2:
        return els[0] + '-', els[1]
    else:
        for verb_prefix in prefixes:
            if token.startswith(verb_prefix):
                return verb_prefix, token[len(verb_prefix):]
    return None
''', '''    parts = token.split('-')
    if len(parts) == 2:
        head, tail = parts
        return head + '-', tail
    for prefix in prefixes:
        if token.startswith(prefix):
            return prefix, token[len(prefix):]
    return None
''')]),
    ('s-tx-vowel', None, [(TX, '''    try:
        if token[-3] in VOWELS and token[-2] in CONSONANTS and token[-2] == token[-1]:
            return [token[-1], token[-1] + token[-1]]
    except IndexError:
        return None
    return None
''', '''    if len(token) < 3:
        return None
    vowel, first, second = token[-3], token[-2], token[-1]
    if vowel in VOWELS and first in CONSONANTS and first == second:
        return [second, second * 2]
    return None
''')]),
    ('s-tx-func', None, [(TX, '''    args_str = ', '.join([str(arg) for arg in args if arg is not None])
    return str(function_name) + '(' + args_str + ')'
''', '''    return '%s(%s)' % (function_name, ', '.join(str(arg) for arg in args if arg is not None))
''')]),
    ('s-tx-letters', None, [(TX, '''def has_only_letters(token: str) -> bool:
    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))
''', '''def has_only_letters(token: str) -> bool:
    return _RE_ONLY_LETTERS.fullmatch(token) is not None
''')]),
    # ---- parser
    ('s-pa-hasparent', None, [(PA, '''        return any([child_idx == idx for _, _, child_idx in self.arcs])
''', '''        for _, _, child_idx in self.arcs:
            if child_idx == idx:
                return True
        return False
''')]),
    ('s-pa-hasparent2', None, [(PA, '''        return any([child_idx == idx for _, _, child_idx in self.arcs])
''', '''        return idx in {arc[2] for arc in self.arcs}
''')]),
    ('s-pa-root', None, [(PA, '''        cands = set()
        cannot_be_root = set()
        for _, pdix, cidx in self.arcs:
            cands |= {pdix, cidx}
            cannot_be_root.add(cidx)
        try:
            return sorted(cands - cannot_be_root)[0]
        except IndexError:
            return None
''', '''        parents = {parent_idx for _, parent_idx, _ in self.arcs}
        children = {child_idx for _, _, child_idx in self.arcs}
        return min(parents - children, default=None)
''')]),
    ('s-pa-root2', None, [(PA, '''        try:
            return sorted(cands - cannot_be_root)[0]
        except IndexError:
            return None
''', '''        roots = cands - cannot_be_root
        if not roots:
            return None
        return min(roots)
''')]),
    ('s-pa-left', None, [(PA, '''        if trans == Trans.LEFT:
            if not self.__has_parent(self.__stack[-1]):
                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
            self.__reduce()
        elif trans == Trans.RIGHT:
            self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
            self.__shift()
''', '''        top, first = self.__stack[-1], self.__buffer[0]
        if trans == Trans.LEFT:
            if not self.__has_parent(top):
                self.arcs.append((self.__pdep(top), first, top))
            self.__reduce()
        elif trans == Trans.RIGHT:
            self.arcs.append((self.__pdep(first), top, first))
            self.__shift()
''')]),
    ('s-pa-pdep', None, [(PA, '''        pdep = self.__deps[child_idx]
        if pdep == Dep.ROOT:
            return Dep.SPLIT  # ROOT cannot have any parent
        return pdep
''', '''        pdep = self.__deps[child_idx]
        return Dep.SPLIT if pdep == Dep.ROOT else pdep  # ROOT cannot have any parent
''')]),
    ('s-pa-tree', None, [(PA, '''    root = parse.root
    if root is None:
        return None
    else:
        tree = Tree(root)
        for dep, parent_idx, child_idx in parse.arcs:
            tree.register_child(dep, parent_idx, child_idx)
        return tree
''', '''    root = parse.root
    if root is None:
        return None
    tree = Tree(root)
    for arc in parse.arcs:
        tree.register_child(*arc)
    return tree
''')]),
    ('s-pa-zip', None, [(PA, '''            for idx, seq_length in enumerate(seq_lengths):
                all_parses.append(
                    _Parse(seq_length, tag_codes[idx], dep_codes[idx], char_codes[idx], word_vectors[idx]))
''', '''            all_parses.extend(_Parse(*args) for args in zip(seq_lengths, tag_codes, dep_codes, char_codes, word_vectors))
''')]),
    ('s-pa-zip2', None, [(PA, '''        for idx, trans in enumerate(predictions):
            parses[idx].register_transition(trans)
''', '''        for parse, trans in zip(parses, predictions):
            parse.register_transition(trans)
''')]),
    ('s-pa-while', None, [(PA, '''        incomplete_parses = [parse for parse in all_parses if not parse.complete]
        while incomplete_parses:
            parse_batches = make_batches(incomplete_parses, self.__batch_size)
            for batch in parse_batches:
                self.__predict_transitions(batch)
            incomplete_parses = [parse for parse in all_parses if not parse.complete]
''', '''        incomplete_parses = [parse for parse in all_parses if not parse.complete]
        while incomplete_parses:
            for batch in make_batches(incomplete_parses, self.__batch_size):
                self.__predict_transitions(batch)
            incomplete_parses = [parse for parse in incomplete_parses if not parse.complete]
''')]),
    ('s-pa-inline', None, [(PA, '''            tag_codes = self.__predict_tags(char_codes, word_vectors)
            dep_codes = self.__predict_deps(tag_codes, char_codes, word_vectors)
''', '''            tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
            dep_codes = self.__pdeps_model.predict(tag_codes, char_codes, word_vectors)
''')]),
    ('s-pa-lambda', None, [(PA, "run_multithreads(token_lists, self.__vectorize_sentence, self.__nb_processes)", "run_multithreads(token_lists, lambda tokens: vectorize_sentence(tokens, self.__charset, self.__wordset),\n                                self.__nb_processes)")]),
    # ---- labelled data
    ('s-ld-crossing', None, [(LD, '''    arc_1, arc_2 = sorted([sorted(arc_1), sorted(arc_2)])
    return arc_1[0] < arc_2[0] < arc_1[1] < arc_2[1]
''', '''    (start_1, end_1), (start_2, end_2) = sorted([sorted(arc_1), sorted(arc_2)])
    return start_1 < start_2 < end_1 < end_2
''')]),
    ('s-ld-valid', None, [(LD, '''        result = []
        for idx, token in enumerate(self.tokens):
            if self.deps[idx] != Dep.NODEP:
                result.append(idx)
        return result
''', '''        return [idx for idx, dep in enumerate(self.deps) if dep != Dep.NODEP]
''')]),
    ('s-ld-root', None, [(LD, '''        root_idx = None
        for child_idx, token_tag_dep_pidx in enumerate(token_tuples):
            if Dep[token_tag_dep_pidx[2]] == Dep.ROOT:
                root_idx = child_idx
                break
''', '''        root_idx = next((idx for idx, token_tuple in enumerate(token_tuples) if Dep[token_tuple[2]] == Dep.ROOT), None)
''')]),
    ('s-ld-unpack', None, [(LD, '''            for child_idx, token_tag_dep_pidx in enumerate(token_tuples):
                token, tag, dep, parent_idx = token_tag_dep_pidx
                dep = Dep[dep]
''', '''            for child_idx, (token, tag, dep_name, parent_idx) in enumerate(token_tuples):
                dep = Dep[dep_name]
''')]),
    ('s-ld-isparent', None, [(LD, '''        dep_idx = self.tree.parent(child_idx)
        if dep_idx is not None:
            _, idx = dep_idx
            return idx == parent_idx
        return False
''', '''        dep_idx = self.tree.parent(child_idx)
        return dep_idx is not None and dep_idx[1] == parent_idx
''')]),
    ('s-ld-arcbefore', None, [(LD, '''        for _, child_idx in self.tree.children(token_idx):
            if child_idx < max_idx:
                return True
        return False
''', '''        return any(child_idx < max_idx for _, child_idx in self.tree.children(token_idx))
''')]),
    ('s-ld-trans', None, [(LD, '''        def _reduce():
            stack.pop()

        def _shift():
            stack.append(buffer.popleft())

        if buffer:
            _shift()
''', '''        def _shift():
            stack.append(buffer.popleft())

        if buffer:
            _shift()
'''), (LD, '''                transitions.append((stack[-1], buffer[0], Trans.LEFT))
                _reduce()
''', '''                transitions.append((stack[-1], buffer[0], Trans.LEFT))
                stack.pop()
'''), (LD, '''                transitions.append((stack[-1], buffer[0], Trans.REDUCE))
                _reduce()
''', '''                transitions.append((stack[-1], buffer[0], Trans.REDUCE))
                stack.pop()
''')]),
    ('s-ld-trans2', None, [(LD, '''            if not stack:
                _shift()
            elif self._is_parent(buffer[0], stack[-1]):
                transitions.append((stack[-1], buffer[0], Trans.LEFT))
                _reduce()
            elif self._is_parent(stack[-1], buffer[0]):
                transitions.append((stack[-1], buffer[0], Trans.RIGHT))
                _shift()
            elif self._has_arc_before(buffer[0], stack[-1]):
                transitions.append((stack[-1], buffer[0], Trans.REDUCE))
                _reduce()
            else:
                transitions.append((stack[-1], buffer[0], Trans.SHIFT))
                _shift()
''', '''            if not stack:
                _shift()
                continue
            top, first = stack[-1], buffer[0]
            if self._is_parent(first, top):
                transitions.append((top, first, Trans.LEFT))
                _reduce()
            elif self._is_parent(top, first):
                transitions.append((top, first, Trans.RIGHT))
                _shift()
            elif self._has_arc_before(first, top):
                transitions.append((top, first, Trans.REDUCE))
                _reduce()
            else:
                transitions.append((top, first, Trans.SHIFT))
                _shift()
''')]),
    ('s-ld-samples', None, [(LD, '''    trans_samples = []
    for idx, sent in enumerate(labelled_sents):
        for idx_1, idx_2, transition in sent.transitions:
            trans_samples.append(
                TransSample(sent.tokens, sent.tags, sent.deps, idx_1, idx_2, transition, charset, wordset))
''', '''    trans_samples = [
        TransSample(sent.tokens, sent.tags, sent.deps, idx_1, idx_2, transition, charset, wordset)
        for sent in labelled_sents for idx_1, idx_2, transition in sent.transitions]
''')]),
    ('s-ld-helper', None, [(LD, '''def extract_ptags_training_data(token_tuple_lists, charset, wordset):
    # Extract & suffle samples
    labelled_sents = [LabelledSentence(idx, tuple_list) for idx, tuple_list in enumerate(token_tuple_lists)]
    ptags_samples = [PTagsSample(sent.tokens, sent.tags, charset, wordset) for sent in labelled_sents]
    random.shuffle(ptags_samples)
    # Prepare tensors
    data_per_sample = [ptags_sample.training_mats for ptags_sample in ptags_samples]
    return [list(data) for data in zip(*data_per_sample)]
''', '''def _shuffled_tensors(samples):
    random.shuffle(samples)
    return [list(data) for data in zip(*[sample.training_mats for sample in samples])]


def extract_ptags_training_data(token_tuple_lists, charset, wordset):
    labelled_sents = [LabelledSentence(idx, tuple_list) for idx, tuple_list in enumerate(token_tuple_lists)]
    return _shuffled_tensors([PTagsSample(sent.tokens, sent.tags, charset, wordset) for sent in labelled_sents])
''')]),
    ('s-ld-leaf', None, [(LD, "        return not bool(self.tree.children(idx))\n", "        return len(self.tree.children(idx)) == 0\n")]),
    # ---- training samples
    ('s-ts-mask', None, [(TS, '''        _mask = [False] * cfg.PADDED_SENT_LENGTH
        _mask[_idx] = True
        return _mask
''', '''        mask = [False for _ in range(cfg.PADDED_SENT_LENGTH)]
        mask[_idx] = True
        return mask
''')]),
    ('s-ts-chars', None, [(TS, '''    if len(token) > cfg.MAX_WORD_LENGTH:
        token = token[len(token) - cfg.MAX_WORD_LENGTH:]  # Truncate beginning of word if too long
    token = '†' + token + '‡'
    return [charset[char] for char in token]
''', '''    if len(token) > cfg.MAX_WORD_LENGTH:
        token = token[-cfg.MAX_WORD_LENGTH:]  # Truncate beginning of word if too long
    return [charset[char] for char in '†%s‡' % token]
''')]),
    ('s-ts-order', None, [(TS, '''    char_codes = _pad_char_codes([_encode_chars(token, charset) for token in tokens])
    word_vectors = _pad_word_vectors([wordset[token] for token in tokens])
    return''', '''    vectors = [wordset[token] for token in tokens]
    codes = [_encode_chars(token, charset) for token in tokens]
    word_vectors = _pad_word_vectors(vectors)
    char_codes = _pad_char_codes(codes)
    return''')]),
    ('s-ts-ids', None, [(TS, '''        return _pad_array([Tag.PAD.value] + [tag.value for tag in tags] + [Tag.PAD.value], cfg.PADDED_SENT_LENGTH)
''', '''        ids = [Tag.PAD.value]
        ids.extend(tag.value for tag in tags)
        ids.append(Tag.PAD.value)
        return _pad_array(ids, cfg.PADDED_SENT_LENGTH)
''')]),
    ('s-ts-ids2', None, [(TS, '''        return _pad_array([Tag.PAD.value] + [tag.value for tag in tags] + [Tag.PAD.value], cfg.PADDED_SENT_LENGTH)
''', '''        return _pad_array([tag.value for tag in [Tag.PAD] + tags + [Tag.PAD]], cfg.PADDED_SENT_LENGTH)
''')]),
    ('s-ts-tuple', None, [(TS, '''        return self.__tag_ids, self.__dep_ids, self._char_ids, self._word_vectors, self.__mask_1, self.__mask_2, \\
               self.__trans_code
''', '''        masks = (self.__mask_1, self.__mask_2)
        return (self.__tag_ids, self.__dep_ids, self._char_ids, self._word_vectors) + masks + (self.__trans_code,)
''')]),
    # ---- tagger, charset, wordset
    ('s-tg-zip', None, [(TG, '''        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
''', '''        return [[Tag(code) for code in codes[1:sl - 1]] for codes, sl in zip(tag_codes, seq_lengths)]
''')]),
    ('s-tg-loop', None, [(TG, '''        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
''', '''        tag_lists = []
        for idx, seq_length in enumerate(seq_lengths):
            codes = tag_codes[idx][1:seq_length - 1]
            tag_lists.append([Tag(code) for code in codes])
        return tag_lists
''')]),
    ('s-ch-get', None, [(CH, '''        try:
            return self.__char_code[char]
        except KeyError:
            return self.__unk_code
''', '''        return self.__char_code.get(char, self.__unk_code)
''')]),
    ('s-ch-in', None, [(CH, '''        try:
            return self.__char_code[char]
        except KeyError:
            return self.__unk_code
''', '''        if char in self.__char_code:
            return self.__char_code[char]
        return self.__unk_code
''')]),
    ('s-ch-union', None, [(CH, '''        chars = LETTERS | UPPERCASE_LETTERS | DIGITS | special_chars | padding_chars
''', '''        chars = set().union(LETTERS, UPPERCASE_LETTERS, DIGITS, special_chars, padding_chars)
''')]),
    ('s-ws-get', None, [(WS, '''        try:
            return self.__word_vector[word.lower()]
        except KeyError:
            return self.__zero_vector
''', '''        key = word.lower()
        if key in self.__word_vector:
            return self.__word_vector[key]
        return self.__zero_vector
''')]),
    ('s-ws-save', None, [(WS, '''                values = line.split()
                word = values[0]
                wordvec = values[1:]
                if language_model''', '''                word, *wordvec = line.split()
                if language_model''')]),
    # ---- normalization
    ('s-ca-elif', None, [(CA, '''        if node.tag == Tag.VERB:
            node.canon = _particle_compound(node.lemma, node)
            return
        node.canon = node.lemma
''', '''        if node.tag != Tag.VERB:
            node.canon = node.lemma
        else:
            node.canon = _particle_compound(node.lemma, node)
''')]),
    ('s-ca-value', None, [(CA, '''        if node.tag == Tag.PRON and node.lemma in self.__personal_pronouns_object_to_subject:
            node.canon = self.__personal_pronouns_object_to_subject[node.lemma]
            return
        if node.tag == Tag.NOUN and node.chunk:
            node.canon = node.chunk
            return
        if node.tag == Tag.ADJ:
            lemma, node.suffix = self.__lemmatize(node.standard, Tag.VERB)
            if node.suffix == Suffix.PAST:
                node.active_verb = _particle_compound(lemma, node)
            node.canon = _particle_compound(node.lemma, node)
            return
        if node.tag == Tag.VERB:
            node.canon = _particle_compound(node.lemma, node)
            return
        node.canon = node.lemma
''', '''        node.canon = self.__canon(node)

    def __canon(self, node):
        if node.tag == Tag.PRON and node.lemma in self.__personal_pronouns_object_to_subject:
            return self.__personal_pronouns_object_to_subject[node.lemma]
        if node.tag == Tag.NOUN and node.chunk:
            return node.chunk
        if node.tag == Tag.ADJ:
            lemma, node.suffix = self.__lemmatize(node.standard, Tag.VERB)
            if node.suffix == Suffix.PAST:
                node.active_verb = _particle_compound(lemma, node)
        if node.tag in {Tag.ADJ, Tag.VERB}:
            return _particle_compound(node.lemma, node)
        return node.lemma
''')]),
    ('s-ca-compound', None, [(CA, '''    if verb.particles:
        return cfg.COMPOUND_JOIN.join([lemma] + verb.particles)
    return lemma
''', '''    if not verb.particles:
        return lemma
    return cfg.COMPOUND_JOIN.join([lemma, *verb.particles])
''')]),
    ('s-ca-compound2', None, [(CA, '''    if verb.particles:
        return cfg.COMPOUND_JOIN.join([lemma] + verb.particles)
    return lemma
''', '''    return cfg.COMPOUND_JOIN.join([lemma] + verb.particles)
''')]),
    ('s-in-get', None, [(IN, '''        try:
            # Irregular
            return self.__lemma_pp[lemma]
        except KeyError:
            # Special endings
            if len(lemma) > 2:
                if lemma[-3] in CONSONANTS and lemma.endswith('ie'):
                    return lemma + 'd'
            if len(lemma) > 1:
                if lemma[-2] in CONSONANTS and lemma[-1] == 'y':
                    return lemma[:-1] + 'ied'
                if lemma[-2] in CONSONANTS and lemma.endswith('e'):
                    return lemma + 'd'
                if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
                    if best:
                        return best
            # Standard case
            return lemma + 'ed'
''', '''        if lemma in self.__lemma_pp:
            return self.__lemma_pp[lemma]
        return self.__regular_past_participle(lemma)

    def __regular_past_participle(self, lemma):
        if len(lemma) > 2 and lemma[-3] in CONSONANTS and lemma.endswith('ie'):
            return lemma + 'd'
        if len(lemma) > 1:
            if lemma[-2] in CONSONANTS and lemma.endswith('y'):
                return lemma[:-1] + 'ied'
            if lemma[-2] in CONSONANTS and lemma[-1] == 'e':
                return lemma + 'd'
            if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
                if best:
                    return best
        return lemma + 'ed'
''')]),
    ('s-le-best', None, [(LE, '''        if len(endings) == 1:
            candidate = stem + endings[0]
            if self.__lm.has_ngram(candidate):
                return candidate
            return None
        if tag == Tag.VERB:
            tokens_before = ['i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should']
        else:
            tokens_before = [stem + ending for ending in endings]
        candidates = [stem + ending for ending in endings]
''', '''        candidates = [stem + ending for ending in endings]
        if len(candidates) == 1:
            return candidates[0] if self.__lm.has_ngram(candidates[0]) else None
        if tag == Tag.VERB:
            tokens_before = ['i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should']
        else:
            tokens_before = candidates
''')]),
    ('s-le-irregular', None, [(LE, '''        if tag == Tag.NOUN:
            if word in self.__plural_lemma:
                # Also contain plurals of flat nouns (e.g. "hot dogs" => "hot dog")
                return self.__plural_lemma[word], Suffix.PLURAL
''', '''        if tag == Tag.NOUN and word in self.__plural_lemma:
            # Also contain plurals of flat nouns (e.g. "hot dogs" => "hot dog")
            return self.__plural_lemma[word], Suffix.PLURAL
''')]),
    ('s-le-full', None, [(LE, '''            if word in {"'m", 'am', "'re", 'are'}:
                return 'be', None
            if word in {"'s", 'is'}:
                return 'be', Suffix.THIRD_PERSON
            if word == 'being':
                return 'be', Suffix.PROGRESSIVE
            if word == 'has':
                return 'have', Suffix.THIRD_PERSON
            if word == 'doing':
                return 'do', Suffix.PROGRESSIVE
''', '''            if word in self.__full_verbs:
                return self.__full_verbs[word]
'''), (LE, '''    # Not to lemmatize
''', '''    __full_verbs = {
        "'m": ('be', None), 'am': ('be', None), "'re": ('be', None), 'are': ('be', None),
        "'s": ('be', Suffix.THIRD_PERSON), 'is': ('be', Suffix.THIRD_PERSON),
        'being': ('be', Suffix.PROGRESSIVE),
        'has': ('have', Suffix.THIRD_PERSON),
        'doing': ('do', Suffix.PROGRESSIVE),
    }

    # Not to lemmatize
''')]),
    ('s-le-prefix', None, [(LE, '''        prefix_base = token_prefix(word, self.__prefixes)
        if prefix_base is not None:
            prefix, base = prefix_base
            lemma_suffix = self.__irregular_lemma(base, tag)
            if lemma_suffix is not None:
                return prefix + lemma_suffix[0], lemma_suffix[1]
''', '''        prefix_base = token_prefix(word, self.__prefixes)
        if prefix_base is not None:
            lemma_suffix = self.__irregular_lemma(prefix_base[1], tag)
            if lemma_suffix is not None:
                lemma, suffix = lemma_suffix
                return prefix_base[0] + lemma, suffix
''')]),
    ('s-le-nouns', None, [(LE, '''            if start is not None and not any([word.endswith('ss'), self.__lm.has_ngram(word + 'es')]):
                return''', '''            if start is not None and not word.endswith('ss') and not self.__lm.has_ngram(word + 'es'):
                return''')]),
    ('s-le-ies', None, [(LE, '''            start = token_start(word, 'ied', 2)
            if start is not None:
                if ends_with_consonant(start):
                    return _lm_lemma(start, ['y'], Suffix.PAST)
''', '''            start = token_start(word, 'ied', 2)
            if start is not None and ends_with_consonant(start):
                return _lm_lemma(start, ['y'], Suffix.PAST)
''')]),
    ('s-le-method', None, [(LE, '''        if tag == Tag.NOUN:
            # Min length 6: [criteri]a->criterion
''', '''        if tag == Tag.NOUN and word:
            # Min length 6: [criteri]a->criterion
''')]),
    ('s-sd-helper', None, [(SD, '''        start_mid_end = _split_token(token, ['our', 'or'], ['ing', 'ed', 's', ''])
        if start_mid_end is not None:
            start, _, end = start_mid_end
            if len(start) > 2:
                best_lemma = self.__lm.best_ngram(start + 'or', start + 'our')
                if best_lemma is not None:
                    return best_lemma + end
''', '''        standard = self.__our_or(token)
        if standard is not None:
            return standard
'''), (SD, '''    def __call__(self, token):''', '''    def __our_or(self, token):
        start_mid_end = _split_token(token, ['our', 'or'], ['ing', 'ed', 's', ''])
        if start_mid_end is None:
            return None
        start, _, end = start_mid_end
        if len(start) <= 2:
            return None
        best_lemma = self.__lm.best_ngram(start + 'or', start + 'our')
        if best_lemma is None:
            return None
        return best_lemma + end

    def __call__(self, token):''')]),
    ('s-sd-in', None, [(SD, "        if len(token) > 4 and token.find('ae') > -1:\n", "        if len(token) > 4 and 'ae' in token:\n")]),
    ('s-sd-split', None, [(SD, '''    match = re.fullmatch(pattern, token)
    if match:
        start, middle, end = match.group(1, 2, 3)
        if len(start) > 1:
            return start, middle, end
    return None
''', '''    match = pattern.fullmatch(token)
    if match is None:
        return None
    start, middle, end = match.groups()
    return (start, middle, end) if len(start) > 1 else None
''')]),
    ('s-sd-loop', None, [(SD, '''        # leukaemia or leukemia ?
        if len(token) > 4 and token.find('ae') > -1:
            best_lemma = self.__lm.best_ngram(token.replace('ae', 'e'), token)
            if best_lemma is not None:
                return best_lemma
        # oestrogen or estrogen ?
        if len(token) > 4 and token.find('oe') > -1:
            best_lemma = self.__lm.best_ngram(token.replace('oe', 'e'), token)
            if best_lemma is not None:
                return best_lemma
        return token
''', '''        # leukaemia or leukemia ?, oestrogen or estrogen ?
        for diphthong in ('ae', 'oe'):
            if len(token) > 4 and token.find(diphthong) > -1:
                best_lemma = self.__lm.best_ngram(token.replace(diphthong, 'e'), token)
                if best_lemma is not None:
                    return best_lemma
        return token
''')]),
    # ---- semantics
    ('s-st-code', None, [(ST, "        return ''.join([arg.code for arg in self.__args])\n", '''        code = ''
        for arg in self.__args:
            code += arg.code
        return code
''')]),
    ('s-st-flat', None, [(ST, "        return self.code + '(' + ', '.join([arg.flatten(with_decorators) for arg in self.__args]) + ')'\n", '''        args = ', '.join(arg.flatten(with_decorators) for arg in self)
        return '%s(%s)' % (self.code, args)
''')]),
    ('s-st-iter', None, [(ST, "        return iter(self.__args)\n", '''        for arg in self.__args:
            yield arg
''')]),
    ('s-st-has', None, [(ST, "        return any([arg.code == arg_code for arg in self.__args])\n", "        return arg_code in [arg.code for arg in self.__args]\n")]),
    ('s-st-list', None, [(ST, "        self.__args = args\n", "        self.__args = tuple(args)\n")]),
    ('s-ar-flat', None, [(AR, '''        strs = []
        if with_decorators and not self.is_affirmative:
            strs.append(cfg.NEGATION)
        strs.append(self.word)
        return ' '.join(strs)
''', '''        if self.is_affirmative or not with_decorators:
            return self.word
        return cfg.NEGATION + ' ' + self.word
''')]),
    ('s-ar-tag', None, [(AR, '''        if self.code in self.__adj_codes:
            return 'ADJ'
        if self.code in self.__verb_codes:
            return 'VERB'
        return 'NOUN'
''', '''        if self.code in self.__verb_codes:
            return 'VERB'
        elif self.code in self.__adj_codes:
            return 'ADJ'
        else:
            return 'NOUN'
''')]),
    # ---- models
    ('s-mo-argmax', None, [(MO, "        return [np.argmax(probas) for probas in batch_probas]\n", '''        predictions = []
        for probas in batch_probas:
            predictions.append(np.argmax(probas))
        return predictions
''')]),
    ('s-mo-argmaxm', None, [(MO, "        return [np.argmax(probas) for probas in batch_probas]\n", "        return [probas.argmax() for probas in batch_probas]\n")]),
    ('s-mo-metric', None, [(MO, '''        if validation_split:
            metric = 'val_accuracy'
        else:
            metric = 'accuracy'
''', '''        metric = 'val_accuracy' if validation_split else 'accuracy'
''')]),
    ('s-mo-masks', None, [(MO, '''        masks_1_inputs = tf.keras.layers.Input(shape=(cfg.PADDED_SENT_LENGTH,), dtype=tf.bool)
        masks_2_inputs = tf.keras.layers.Input(shape=(cfg.PADDED_SENT_LENGTH,), dtype=tf.bool)
''', '''        masks_2_inputs = tf.keras.layers.Input(shape=(cfg.PADDED_SENT_LENGTH,), dtype=tf.bool)
        masks_1_inputs = tf.keras.layers.Input(shape=(cfg.PADDED_SENT_LENGTH,), dtype=tf.bool)
''')]),
    ('s-mo-arrays', None, [(MO, '''        batch_probas = self._model.predict(
            [np.array(tag_codes), np.array(dep_codes), np.array(char_codes), np.array(word_vectors), np.array(masks_1),
             np.array(masks_2)])
''', '''        mats = (tag_codes, dep_codes, char_codes, word_vectors, masks_1, masks_2)
        batch_probas = self._model.predict([np.array(mat) for mat in mats])
''')]),
]
