"""Edits that break C20 to C34; see tools/battery.py."""
LM = 'langmodel/language_model.py'
TC = 'langmodel/token_context.py'
LB = 'langmodel/language_model_builder.py'
NG = 'langmodel/ngram.py'
NS = 'langmodel/ngram_store.py'
NE = 'langmodel/ngrams_extraction.py'
SM = 'langmodel/smoother.py'
ML = 'langmodel/mle_smoother.py'
MK = 'langmodel/mkn_smoother.py'
TK = 'preprocessing/tokenizer.py'
SZ = 'preprocessing/sentencizer.py'
SA = 'preprocessing/sanitization.py'
PA = 'syntax/parser.py'
TR = 'utils/tree.py'
FI = 'utils/files.py'
LD = 'syntax/labelled_data.py'
TS = 'syntax/training_samples.py'
MO = 'syntax/models.py'
CS = 'syntax/charset.py'
WS = 'syntax/wordset.py'
TG = 'syntax/tagger.py'
ST = 'semantics/semantic_tuple.py'
AR = 'semantics/argument.py'
DO = 'pipeline/document.py'
TX = 'utils/text.py'
LP = 'pipeline/logic_pipeline.py'

E = [
    # C20
    ('b20-has', 'C20', [(LM, "[0] >= min_count", "[0] > min_count")]),
    ('b20-has1', 'C20', [(LM, "        if min_count < 1:\n            return False\n", "")]),
    ('b20-best-last', 'C20', [(LM, "        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)\n        return token_logp_tuples[0][0]", "        token_logp_tuples.sort(key=lambda x: x[1])\n        return token_logp_tuples[-1][0]")]),
    ('b20-best-all', 'C20', [(LM, "if not any([ngram in self.__ngrams_details for ngram in ngrams]):", "if not all([ngram in self.__ngrams_details for ngram in ngrams]):")]),
    ('b20-top-count', 'C20', [(LM, "sorted(ngrams, key=lambda x: x[2], reverse=True)", "sorted(ngrams, key=lambda x: x[1], reverse=True)")]),
    ('b20-top-limit', 'C20', [(LM, "        return sorted_ngrams[:limit]", "        return sorted_ngrams[:limit or None]")]),
    ('b20-top-order', 'C20', [(LM, "if len(ngram.split()) == order:", "if len(ngram.split()) >= order:")]),
    ('b20-next-order', 'C20', [(LM, "for i in range(self.__max_order - 1, 0, -1):", "for i in range(1, self.__max_order):")]),
    ('b20-next-range', 'C20', [(LM, "for i in range(self.__max_order - 1, 0, -1):", "for i in range(self.__max_order - 1, 1, -1):")]),
    ('b20-next-sort', 'C20', [(LM, "next_tokens.sort(key=lambda x: x[1], reverse=True)", "next_tokens.sort(key=lambda x: x[1])")]),
    ('b20-next-key', 'C20', [(LM, "' '.join(tokens[:-1]), (tokens[-1]", "' '.join(tokens[:1]), (tokens[-1]")]),
    ('b20-next-limit', 'C20', [(LM, "[' '.join(tokens[-i:])][:limit]", "[' '.join(tokens[-i:])][:limit or None]")]),
    ('b20-next-lower', 'C20', [(LM, "        tokens = self.__tokenize(text)\n        for", "        tokens = self.__tokenize(text.lower())\n        for")]),
    ('b20-cand-max', 'C20', [(LM, "max([self.__logp(ngram) for ngram in candidates])", "sum([self.__logp(ngram) for ngram in candidates])")]),
    ('b20-cand-order', 'C20', [(LM, "for i in range(self.__max_order, 1, -1):", "for i in range(2, self.__max_order + 1):")]),
    ('b20-cand-empty', 'C20', [(LM, "            else:\n                probas.append(float('-inf'))\n        probas.append", "        probas.append")]),
    ('b20-token-any', 'C20', [(LM, "if not any([token in self.__ngrams_details for token in tokens]):", "if tokens[0] not in self.__ngrams_details:")]),
    ('b20-token-min', 'C20', [(LM, "tokens[tprobas[max(tprobas.keys())]]", "tokens[tprobas[min(tprobas.keys())]]")]),
    ('b20-token-swap', 'C20', [(LM, "TokenContext(token, tokens_before, tokens_after)", "TokenContext(token, tokens_after, tokens_before)")]),
    ('b20-token-uni', 'C20', [(LM, "probas.append(self.__logp(token_context.token))", "probas.insert(0, self.__logp(token_context.token))")]),
    ('b20-unk', 'C20', [(LM, "self.__unk = (0, 0.0, float('-inf'))", "self.__unk = (0, 0.0, 0.0)")]),
    ('b20-window', 'C20', [(TC, "exploring_range = order - 1", "exploring_range = order")]),
    ('b20-before', 'C20', [(TC, "self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]", "self.__tokens_before[:exploring_range]")]),
    ('b20-before0', 'C20', [(TC, "self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]", "self.__tokens_before[len(self.__tokens_before) - exploring_range:]")]),
    ('b20-after', 'C20', [(TC, "self.__tokens_after[:exploring_range]", "self.__tokens_after[-exploring_range:]")]),
    ('b20-contextorder', 'C20', [(TC, "tokens_before + [self.token] + tokens_after", "tokens_before + tokens_after + [self.token]")]),
    # C21
    ('b21-prec', 'C21', [(LB, "'%s\\t%d\\t%.17f\\n'", "'%s\\t%d\\t%.5f\\n'")]),
    ('b21-sep', 'C21', [(LB, "'%s\\t%d\\t%.17f\\n'", "'%s %d %.17f\\n'")]),
    ('b21-order', 'C21', [(LB, "sorted(ngrams, reverse=True)", "sorted(ngrams, key=lambda n: n.count, reverse=True)")]),
    ('b21-asc', 'C21', [(LB, "sorted(ngrams, reverse=True)", "sorted(ngrams)")]),
    ('b21-ge', 'C21', [(LB, "if ngram.proba > 0.0:", "if ngram.proba >= 0.0:")]),
    ('b21-file', 'C21', [(LM, "('%d_grams.txt' % order)", "('%d_grams.txt' % (order + 1))")]),
    ('b21-enc', 'C21', [(LB, "open(filepath, 'w', encoding='utf-8')", "open(filepath, 'w')")]),
    ('b21-append', 'C21', [(LB, "open(filepath, 'w', encoding='utf-8')", "open(filepath, 'a', encoding='utf-8')")]),
    ('b21-min', 'C21', [(LM, "if count >= min_count:", "if count > min_count:")]),
    ('b21-idx', 'C21', [(LM, "            order = idx + 1\n", "            order = len(min_counts) - idx\n")]),
    ('b21-firstline', 'C21', [(LM, "[line.split('\\t') for line in text_file]", "[line.split('\\t') for line in list(text_file)[1:]]")]),
    ('b21-setdefault', 'C21', [(LM, "                        self.__ngrams_details[text] = (count, proba, math.log(proba))", "                        self.__ngrams_details[text.lower()] = (count, proba, math.log(proba))")]),
    ('b21-swap', 'C21', [(LB, "(ngram.text, ngram.count, ngram.proba)", "(ngram.text, ngram.order, ngram.proba)")]),
    # C22
    ('b22-I', 'C22', [(NE, "    if token == 'I':\n        return True\n", "")]),
    ('b22-i', 'C22', [(NE, "if token == 'I':", "if token in ('I', 'A'):")]),
    ('b22-any', 'C22', [(NE, "return all([_valid", "return any([_valid")]),
    ('b22-upper', 'C22', [(NE, "any([not has_only_letters(token), starts_with_uppercase_letter(token)])", "not has_only_letters(token)")]),
    ('b22-letters', 'C22', [(TX, "bool(re.fullmatch(_RE_ONLY_LETTERS, token))\n\n\ndef has_only_lowercase", "bool(re.match(_RE_ONLY_LETTERS, token))\n\n\ndef has_only_lowercase")]),
    ('b22-lower', 'C22', [(NE, "ngrams.extend([ngram.lower() for ngram in filtered_ngrams])", "ngrams.extend(filtered_ngrams)")]),
    ('b22-dedupe', 'C22', [(NE, "ngrams.extend([ngram.lower() for ngram in filtered_ngrams])", "ngrams.extend(dict.fromkeys([ngram.lower() for ngram in filtered_ngrams]))")]),
    ('b22-cross', 'C22', [(NE, "    for token_list in token_lists:\n", "    for token_list in [[token for tokens in token_lists for token in tokens]]:\n")]),
    ('b22-window', 'C22', [(NE, "[token_list[i:] for i in range(order)]", "[token_list[i::order] for i in range(order)]")]),
    ('b22-sep', 'C22', [(NE, "[' '.join(ngram_tokens) for", "['_'.join(ngram_tokens) for")]),
    ('b22-count0', 'C22', [(NG, "self.count = 1", "self.count = 0")]),
    ('b22-count2', 'C22', [(NS, "            ngram.count += 1\n", "            ngram.count += ngram.order\n")]),
    ('b22-countcap', 'C22', [(NS, "            ngram.count += 1\n", "            ngram.count = min(ngram.count + 1, 65535)\n")]),
    ('b22-storekey', 'C22', [(NS, "        self.__store[text] = ngram\n", "        self.__store[str(ngram)] = ngram\n")]),
    # C23
    ('b23-mletotal', 'C23', [(ML, "self.__total_counts[ngram.order] += ngram.count", "self.__total_counts[ngram.order] += 1")]),
    ('b23-mleorder', 'C23', [(ML, "_DataSlice(np_counts, self.__total_counts[order])", "_DataSlice(np_counts, self.__total_counts[1])")]),
    ('b23-mlelast', 'C23', [(ML, "for order in range(1, self._last_order + 1):\n            data", "for order in range(1, self._last_order):\n            data")]),
    ('b23-n4', 'C23', [(MK, "        elif ngram.count == 4:", "        elif ngram.count >= 4:")]),
    ('b23-n1', 'C23', [(MK, "            n1[ngram.order] += 1", "            n1[ngram.order] += ngram.count + 1")]),
    ('b23-wc', 'C23', [(MK, "            elif ngram.count == 2:\n                wc2[wc] += 1\n            else:", "            elif ngram.count == 2:\n                wc2[wc] += 1\n            elif ngram.count == 3:")]),
    ('b23-wcs', 'C23', [(MK, "        if ngram.order > 2:", "        if ngram.order > 3:")]),
    ('b23-wcscount', 'C23', [(MK, "' '.join(ngram.tokens[1:]))] += 1", "' '.join(ngram.tokens[1:]))] += ngram.count")]),
    ('b23-wcmid', 'C23', [(MK, "' '.join(ngram.tokens[1:-1])", "' '.join(ngram.tokens[1:])")]),
    ('b23-y', 'C23', [(MK, "y = n1[order] / (n1[order] + 2. * n2[order])", "y = n1[order] / (n1[order] + n2[order])")]),
    ('b23-d2', 'C23', [(MK, "d2[order] = 2. - (3. * y * n3[order] / n2[order])", "d2[order] = 2. - (3. * y * n2[order] / n3[order])")]),
    ('b23-d3', 'C23', [(MK, "d3[order] = 3. - (4. * y * n4[order] / n3[order])", "d3[order] = 3. - (3. * y * n4[order] / n3[order])")]),
    ('b23-err', 'C23', [(MK, "if any([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):", "if any([n1[order] == 0, n2[order] == 0, n3[order] == 0]):")]),
    ('b23-errall', 'C23', [(MK, "if any([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):", "if all([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):")]),
    ('b23-disc3', 'C23', [(MK, "        if countc == 2:\n            return self.__d2[order]\n        return self.__d3[order]", "        if countc <= 3:\n            return self.__d2[order]\n        return self.__d3[order]")]),
    ('b23-disc0', 'C23', [(MK, "        if countc == 0:\n            return 0.0\n", "")]),
    ('b23-max', 'C23', [(MK, "np.maximum(np_l_counts - np_discounts, np_zero)", "np.abs(np_l_counts - np_discounts)")]),
    ('b23-weight', 'C23', [(MK, "(np_r1_counts + np_r2_counts + np_r3_counts) / np_lr_counts", "(np_r1_counts + np_r2_counts) / np_lr_counts")]),
    ('b23-r2', 'C23', [(MK, "np_r2_counts = np_r2_counts * operands[6]", "np_r2_counts = np_r2_counts * operands[4]")]),
    ('b23-interp', 'C23', [(MK, "return np_cc + np_weight * _calc", "return np_cc * np_weight + _calc")]),
    ('b23-crl', 'C23', [(MK, "crl = self.__wcs_lookup[lower.continuous_ngram]", "crl = self.__wcs_lookup[lower.prepend_wc]")]),
    ('b23-lastwc', 'C23', [(MK, "            last_wc = lower.wc_last_token\n", "            last_wc = ngram.wc_last_token\n")]),
    ('b23-ordd', 'C23', [(MK, "self.__discount(order + 1, cl)", "self.__discount(order, cl)")]),
    ('b23-unibig', 'C23', [(MK, "nb_bigrams = len(self._ngrams.get(2, []))", "nb_bigrams = sum([n.count for n in self._ngrams.get(2, [])])")]),
    ('b23-uniwc', 'C23', [(MK, "self.__wcs_lookup[unigram.prepend_wc]", "unigram.count")]),
    ('b23-assign', 'C23', [(MK, "            self._ngrams[1][idx].proba = proba\n", "            if proba:\n                self._ngrams[1][idx].proba = proba\n")]),
    ('b23-lowest', 'C23', [(MK, "self._ngrams[start_order][i].last_token", "self._ngrams[start_order][i].tokens[0]")]),
    ('b23-range', 'C23', [(SM, "marks[i + 1]) for i", "marks[i + 1] - 1) for i")]),
    ('b23-lower', 'C23', [(NG, "' '.join(self.tokens[self.order - order:])", "' '.join(self.tokens[:order])")]),
    ('b23-wolast', 'C23', [(NG, "' '.join(self.tokens[:-1])", "' '.join(self.tokens[1:])")]),
    ('b23-gt', 'C21', [(NG, "return self.proba > other.proba", "return self.count > other.count")]),
    # C24
    ('b24-order', 'C24', [(TK, "        text = re.sub(self.__re_no_split_dot, '.', text)\n        text = re.sub(self.__re_no_split_gte, ' >= ', text)\n        text = re.sub(self.__re_no_split_lte, ' <= ', text)\n", "        text = re.sub(self.__re_no_split_gte, ' >= ', text)\n        text = re.sub(self.__re_no_split_lte, ' <= ', text)\n")]),
    ('b24-rgte', 'C24', [(TK, "text = re.sub(self.__re_no_split_rlte, ' =< ', text)", "text = re.sub(self.__re_no_split_rlte, ' <= ', text)")]),
    ('b24-restore-order', 'C24', [(TK, "reversed(list(protected.items()))", "list(protected.items())")]),
    ('b24-replace1', 'C24', [(TK, "text = text.replace(token, key)", "text = text.replace(token, key, 1)")]),
    ('b24-index', 'C24', [(TK, "                index += 1\n", ""), (TK, "            match = re.search(pattern, text)\n            while", "            index += 1\n            match = re.search(pattern, text)\n            while")]),
    ('b24-key', 'C24', [(TK, "key = '_PROTECTED_%d_' % index", "key = '_PROTECTED_%d' % index")]),
    ('b24-abbr', 'C24', [(TK, "'m', 'mr', 'mrs', 'ms', 'sr',", "'m', 'mr', 'mrs', 'ms', 'sr', 'no',")]),
    ('b24-abbrI', 'C24', [(TK, "(re.compile(r'\\b%s(?=\\s[A-Z])' % __abbr_options, re.I)", "(re.compile(r'\\b%s(?=\\s[A-Z])' % __abbr_options)")]),
    ('b24-url', 'C24', [(TK, "(https?://|www\\.)", "(http://|www\\.)")]),
    ('b24-smiley', 'C24', [(TK, "([:;]-?\\))|([:;]-?\\()", "([:;]-?\\))|([:]-?\\()")]),
    ('b24-dots', 'C24', [(TK, "        re.compile(r'\\.{2,}', re.I),  # Multiple dots\n", "")]),
    ('b24-fullmatch', 'C24', [(TK, "any([re.fullmatch(regex, token)", "any([re.match(regex, token)")]),
    ('b24-empty', 'C24', [(TK, "return ['']", "return []")]),
    ('b24-split-before', 'C24', [(TK, "            if any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):\n                tokens.append(token)\n            else:\n                for pattern, rep in self.__re_token_split_dot:\n                    token = re.sub(pattern, rep, token)\n                tokens.extend(token.split())", "            for pattern, rep in self.__re_token_split_dot:\n                token = re.sub(pattern, rep, token)\n            tokens.extend(token.split())")]),
    ('b24-alwaysplit', 'C24', [(TK, "|\\\\+|\\(+|", "|\\(+|")]),
    ('b24-reattach', 'C24', [(TK, "        (re.compile(r'(\\.{2,}) \\.'), r'\\g<1>.'),\n", "")]),
    ('b24-segorder', 'C24', [(TK, "        # Re-attach text\n        for replace in self.__re_reattach:\n            text = re.sub(replace[0], replace[1], text)\n        # Re-establish protected patterns\n        # (latest first, since a protected pattern can contain the key of an earlier one)\n        for key, value in reversed(list(protected.items())):\n            text = text.replace(key, value)\n", "        # Re-establish protected patterns\n        # (latest first, since a protected pattern can contain the key of an earlier one)\n        for key, value in reversed(list(protected.items())):\n            text = text.replace(key, value)\n        # Re-attach text\n        for replace in self.__re_reattach:\n            text = re.sub(replace[0], replace[1], text)\n")]),
    ('b24-sanitize', 'C24', [(SA, "        text = text.strip()\n", "        text = text.strip().lower()\n")]),
    ('b24-cannot', 'C24', [(TK, "r'(?<=\\b)(can)(not)(?=\\b)', re.I)", "r'(?<=\\b)(can)(not)(?=\\b)')")]),
    ('b24-comma', 'C24', [(TK, "(re.compile(r',(?!\\d)'), ' , '),", "(re.compile(r',(?!\\d|\\w)'), ' , '),")]),
    # C25
    ('b25-enders', 'C25', [(SZ, "([.?!:]+|¶)", "([.?!:]|¶)")]),
    ('b25-semicolon', 'C25', [(SZ, "([.?!:]+|¶)", "([.?!:;]+|¶)")]),
    ('b25-mark', 'C25', [(SZ, "                if token != '¶':\n                    current_sent.append(token)", "                current_sent.append(token)")]),
    ('b25-rest', 'C25', [(SZ, "        if current_sent:\n            sents.append(current_sent)\n        return", "        if len(current_sent) > 1:\n            sents.append(current_sent)\n        return")]),
    ('b25-shift', 'C25', [(SZ, "shift += len(quote) - 4 - len(number)", "shift += len(quote) - 5")]),
    ('b25-greedy', 'C25', [(SZ, "r'\".*?\"'", "r'\".*\"'")]),
    ('b25-mark-in', 'C25', [(SZ, ".replace('¶', ' ')", "")]),
    ('b25-newline', 'C25', [(SZ, "\\s*[\\t\\n\\r]+\\s*", "\\s*[\\n\\r]+\\s*")]),
    ('b25-nested', 'C25', [(SZ, "                            if nested_token.startswith(self.__re_quote_block_start):\n                                _insert_quote_block(nested_token, sent_tokens_with_blocks)\n                            else:\n                                sent_tokens_with_blocks.append(nested_token)", "                            sent_tokens_with_blocks.append(nested_token)")]),
    ('b25-closequote', 'C25', [(SZ, "(quotes[int(_token[1:-1])]))\n            _ctr.append('\"')", "(quotes[int(_token[1:-1])]))\n            if _ctr[-1] != '\"':\n                _ctr.append('\"')")]),
    ('b25-idx1', 'C25', [(SZ, "quotes[int(_token[1:-1])]", "quotes[int(_token[1:2])]")]),
    ('b25-reserved', 'C25', [(SZ, "        (re.compile(r'[༺༻⦅⦆]'), ' '),  # Reserved for the block markers\n", "")]),
    ('b25-order', 'C25', [(SZ, "(re.compile(r'\\.\"'), '.\"¶')", "(re.compile(r'[.]\"'), '\"¶')")]),
    ('b25-perblock', 'C25', [(SZ, "            number = str(len(ctr) - 1)\n", "            number = str(len(ctr))\n")]),
    ('b25-fullmatch', 'C25', [(SZ, "re.fullmatch(self.__re_sent_enders, token)", "re.match(self.__re_sent_enders, token)")]),
    ('b25-emptysent', 'C25', [(SZ, "                sents.append(current_sent)\n                current_sent = []", "                if len(current_sent) > 1:\n                    sents.append(current_sent)\n                    current_sent = []")]),
    ('b25-space', 'C25', [(SZ, "' ' + block_starter + number + block_ender + ' '", "block_starter + number + block_ender")]),
    # C26
    ('b26-left-parent', 'C26', [(PA, "            if not self.__has_parent(self.__stack[-1]):\n                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))\n", "            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))\n")]),
    ('b26-right-dir', 'C26', [(PA, "(self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0])", "(self.__pdep(self.__buffer[0]), self.__buffer[0], self.__stack[-1])")]),
    ('b26-right-dep', 'C26', [(PA, "(self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0])", "(self.__pdep(self.__stack[-1]), self.__stack[-1], self.__buffer[0])")]),
    ('b26-pdep', 'C26', [(PA, "            return Dep.SPLIT  # ROOT", "            return Dep.ROOT  # ROOT")]),
    ('b26-nodep', 'C26', [(PA, "[idx for idx in range(seq_length - 2) if self.__deps[idx] != Dep.NODEP]", "[idx for idx in range(seq_length - 2)]")]),
    ('b26-reduce', 'C26', [(PA, "        self.__stack.pop()\n        if not self.__stack:\n            self.__shift()", "        self.__stack.pop()\n        if len(self.__stack) < 2:\n            self.__shift()")]),
    ('b26-shift', 'C26', [(PA, "self.__stack.append(self.__buffer.popleft())", "self.__stack.append(self.__buffer.pop())")]),
    ('b26-root-last', 'C26', [(PA, "sorted(cands - cannot_be_root)[0]", "sorted(cands - cannot_be_root)[-1]")]),
    ('b26-root-cands', 'C26', [(PA, "sorted(cands - cannot_be_root)[0]", "sorted(cands)[0]")]),
    ('b26-noroot', 'C26', [(PA, "    if root is None:\n", "    if not root:\n")]),
    ('b26-tags', 'C26', [(PA, "for code in tag_codes[1:seq_length - 1]]", "for code in tag_codes[0:seq_length - 2]]")]),
    ('b26-deps', 'C26', [(PA, "for code in dep_codes[1:seq_length - 1]]", "for code in dep_codes[:seq_length - 2]]")]),
    ('b26-masks', 'C26', [(PA, "make_masks(self.__stack[-1] + 1, self.__buffer[0] + 1)", "make_masks(self.__stack[-1], self.__buffer[0])")]),
    ('b26-maskswap', 'C26', [(PA, "make_masks(self.__stack[-1] + 1, self.__buffer[0] + 1)", "make_masks(self.__buffer[0] + 1, self.__stack[-1] + 1)")]),
    ('b26-hasparent', 'C26', [(PA, "any([child_idx == idx for _, _, child_idx in self.arcs])", "any([child_idx == idx for _, child_idx, _ in self.arcs])")]),
    ('b26-build', 'C26', [(PA, "tree.register_child(dep, parent_idx, child_idx)", "tree.register_child(dep, child_idx, parent_idx)")]),
    ('b26-idx', 'C26', [(PA, "_Parse(seq_length, tag_codes[idx], dep_codes[idx], char_codes[idx], word_vectors[idx])", "_Parse(seq_length, tag_codes[idx], dep_codes[idx], char_codes[0], word_vectors[idx])")]),
    ('b26-reg0', 'C26', [(PA, "parses[idx].register_transition(trans)", "parses[0].register_transition(trans)")]),
    ('b26-complete', 'C26', [(PA, "        return not self.__buffer\n", "        return not self.__buffer or not self.__stack\n")]),
    ('b26-filter', 'C26', [(PA, "        all_tags = [parse.tags for parse in all_parses]", "        all_tags = [parse.tags for parse in all_parses if parse.arcs]")]),
    # C27
    ('b27-left', 'C27', [(LD, "                transitions.append((stack[-1], buffer[0], Trans.LEFT))", "                transitions.append((buffer[0], stack[-1], Trans.LEFT))")]),
    ('b27-order', 'C27', [(LD, "            elif self._has_arc_before(buffer[0], stack[-1]):\n                transitions.append((stack[-1], buffer[0], Trans.REDUCE))\n                _reduce()\n            else:\n                transitions.append((stack[-1], buffer[0], Trans.SHIFT))\n                _shift()", "            elif not self._has_arc_before(buffer[0], stack[-1]):\n                transitions.append((stack[-1], buffer[0], Trans.SHIFT))\n                _shift()\n            else:\n                transitions.append((stack[-1], buffer[0], Trans.REDUCE))\n                _shift()")]),
    ('b27-before', 'C27', [(LD, "            if parent_idx < max_idx:", "            if parent_idx <= max_idx:")]),
    ('b27-children', 'C27', [(LD, "        # Check children\n        for _, child_idx in self.tree.children(token_idx):\n            if child_idx < max_idx:\n                return True\n", "")]),
    ('b27-arg', 'C27', [(LD, "self._has_arc_before(buffer[0], stack[-1])", "self._has_arc_before(stack[-1], buffer[0])")]),
    ('b27-root', 'C27', [(LD, "                root_idx = child_idx\n                break", "                root_idx = child_idx")]),
    ('b27-nodep', 'C27', [(LD, "if dep not in {Dep.ROOT, Dep.NODEP} and parent_idx > -1:", "if dep not in {Dep.ROOT} and parent_idx > -1:")]),
    ('b27-p0', 'C27', [(LD, "parent_idx > -1:", "parent_idx > 0:")]),
    ('b27-swap', 'C27', [(LD, "self.tree.register_child(dep, parent_idx, child_idx)", "self.tree.register_child(dep, child_idx, parent_idx)")]),
    ('b27-valid', 'C27', [(LD, "            if self.deps[idx] != Dep.NODEP:\n", "            if self.deps[idx] not in (Dep.NODEP, Dep.ROOT):\n")]),
    ('b27-isparent', 'C27', [(LD, "        dep_idx = self.tree.parent(child_idx)\n        if dep_idx is not None:\n            _, idx = dep_idx\n            return idx == parent_idx", "        dep_idx = self.tree.parent(parent_idx)\n        if dep_idx is not None:\n            _, idx = dep_idx\n            return idx == child_idx")]),
    ('b27-cross', 'C27', [(LD, "arc_1[0] < arc_2[0] < arc_1[1] < arc_2[1]", "arc_1[0] <= arc_2[0] < arc_1[1] < arc_2[1]")]),
    ('b27-leaf', 'C27', [(LD, "return not bool(self.tree.children(idx))", "return not bool(self.tree.children_via(idx, self.deps[idx]))")]),
    ('b27-tokens-lower', 'C27', [(LD, "self.tokens.append(token)", "self.tokens.append(token.lower())")]),
    # C28
    ('b28-mask', 'C28', [(TS, "_mask[_idx] = True", "_mask[_idx - 1] = True")]),
    ('b28-trunc', 'C28', [(TS, "token = token[len(token) - cfg.MAX_WORD_LENGTH:]", "token = token[:cfg.MAX_WORD_LENGTH]")]),
    ('b28-frame', 'C28', [(TS, "token = '†' + token + '‡'", "token = '†' + token")]),
    ('b28-frame2', 'C28', [(TS, "['ʃʃʃ'] + tokens + ['ʄʄʄ']", "['ʃʃʃ'] + tokens + ['ʃʃʃ']")]),
    ('b28-toolong', 'C28', [(TS, "if len(tokens) > cfg.MAX_SENT_LENGTH:", "if len(tokens) >= cfg.MAX_SENT_LENGTH:")]),
    ('b28-pad', 'C28', [(TS, "result[:len(array)] = array", "result[-len(array):] = array")]),
    ('b28-padarr', 'C28', [(TS, "np.array(array[-dim:], dtype=np.int32)", "np.array(array[:dim], dtype=np.int32)")]),
    ('b28-concat', 'C28', [(TS, "np.concatenate((padded_arrays, empty_arrays))", "np.concatenate((empty_arrays, padded_arrays))")]),
    ('b28-lower', 'C28', [(WS, "self.__word_vector[word.lower()]", "self.__word_vector[word]")]),
    ('b28-tagpad', 'C28', [(TS, "_pad_array([Tag.PAD.value] + [tag.value for tag in tags] + [Tag.PAD.value], cfg.PADDED_SENT_LENGTH)", "_pad_array([tag.value for tag in tags] + [Tag.PAD.value], cfg.PADDED_SENT_LENGTH)")]),
    ('b28-transmask', 'C28', [(TS, "make_masks(idx_1 + 1, idx_2 + 1)", "make_masks(idx_1 + 1, idx_2)")]),
    ('b28-tagger', 'C28', [(TG, "tag_codes[idx][1:sl - 1]", "tag_codes[idx][1:sl]")]),
    ('b28-unk', 'C28', [(CS, "max(self.__char_code.values()) + 1", "max(self.__char_code.values())")]),
    ('b28-unk0', 'C28', [(CS, "            return self.__unk_code", "            return 0")]),
    ('b28-wordrow', 'C28', [(TS, "word_vectors = _pad_word_vectors([wordset[token] for token in tokens])", "word_vectors = _pad_word_vectors([wordset[token] for token in tokens[1:]])")]),
    ('b28-len', 'C28', [(TS, "return len(tokens), char_codes, word_vectors", "return len(tokens) - 2, char_codes, word_vectors")]),
    # C30
    ('b30-len', 'C30', [(TR, "return 1 + len(self.__parents.keys())", "return len(set(self.__children) | set(self.__parents))")]),
    ('b30-assert', 'C30', [(TR, "        assert parent != child\n", "")]),
    ('b30-hasnode', 'C30', [(TR, "any([node in self.__children, node in self.__parents])", "node in self.__parents")]),
    ('b30-anc-rev', 'C30', [(TR, "        anc_branch.reverse()\n", "")]),
    ('b30-anc-label', 'C30', [(TR, "                if _parent_label == label:\n                    anc_branch.append(_parent_node)\n                    _recurse_climb(_parent_node)", "                if _parent_label == label:\n                    anc_branch.append(_parent_node)\n                _recurse_climb(_parent_node)")]),
    ('b30-desc', 'C30', [(TR, "                    nodes.append(_child)\n                    _recurse_add_descendants(_child)", "                    _recurse_add_descendants(_child)\n                    nodes.append(_child)")]),
    ('b30-desc1', 'C30', [(TR, "                    nodes.append(_child)\n                    _recurse_add_descendants(_child)", "                    nodes.append(_child)")]),
    ('b30-childvia', 'C30', [(TR, "self.__children[node][label][0]", "self.__children[node][label][-1]")]),
    ('b30-set', 'C30', [(TR, "any([key in labels for key in self.__children[node]])", "all([key in labels for key in self.__children[node]])")]),
    ('b30-sib', 'C30', [(TR, "                    if child != node:\n                        siblings.append((label, child))", "                    siblings.append((label, child))")]),
    ('b30-iter', 'C30', [(TR, "[(label, parent, child) for child, (label, parent)", "[(label, child, parent) for child, (label, parent)")]),
    ('b30-iterself', 'C30', [(TR, "        return iter([(label, parent, child) for child, (label, parent) in self.__parents.items()])", "        self.__it = iter([(label, parent, child) for child, (label, parent) in self.__parents.items()])\n        return self\n\n    def __next__(self):\n        return next(self.__it)")]),
    ('b30-setdefault', 'C30', [(TR, "        self.__parents[child] = (label, parent)", "        self.__parents.setdefault(child, (label, parent))")]),
    ('b30-haschildvia', 'C30', [(TR, "            return label in self.__children[node]\n", "            return len(self.__children[node]) > 0\n")]),
    ('b30-nodes', 'C30', [(TR, "[self.root] + list(self.__parents.keys())", "list(self.__parents.keys()) + [self.root]")]),
    ('b30-children', 'C30', [(TR, "for child in children]\n        except KeyError:\n            return []\n\n    def children_via", "for child in children[:1]]\n        except KeyError:\n            return []\n\n    def children_via")]),
    # C31
    ('b31-enc', 'C31', [(FI, "open(file_path(*args), encoding=cfg.ENCODING)", "open(file_path(*args))")]),
    ('b31-strip', 'C31', [(FI, "{line.strip() for line in txt_file}", "{line for line in txt_file}")]),
    ('b31-lower', 'C31', [(FI, "{line.strip() for line in txt_file}", "{line.strip().lower() for line in txt_file}")]),
    ('b31-noclose', 'C31', [(FI, "    with open(file_path(*args), 'rb') as pkl_file:\n        return pickle.load(pkl_file)", "    return pickle.load(open(file_path(*args), 'rb'))")]),
    ('b31-tryclose', 'C31', [(FI, "    with open(file_path(*args), 'wb') as pkl_file:\n        pickle.dump(python_object, pkl_file)", "    pkl_file = open(file_path(*args), 'wb')\n    pickle.dump(python_object, pkl_file)\n    pkl_file.close()")]),
    ('b31-swap', 'C31', [(FI, "{key: value for key, value in", "{value: key for key, value in")]),
    ('b31-sep', 'C31', [(FI, "line.strip().split('\\t')", "line.strip().split()")]),
    ('b31-path', 'C31', [(FI, "    for arg in args:\n        path /= arg\n", "    for arg in reversed(args):\n        path /= arg\n")]),
    ('b31-charfile', 'C31', [(CS, "save_pkl_file(char_code, *self.__filepath)", "save_pkl_file(char_code, 'models', 'char_code.pkl')")]),
    ('b31-mode', 'C31', [(FI, "open(file_path(*args), 'w', encoding=cfg.ENCODING)", "open(file_path(*args), 'w', encoding='latin-1')")]),
    # C32
    ('b32-code', 'C32', [(ST, "''.join([arg.code for arg in self.__args])", "''.join(sorted([arg.code for arg in self.__args]))")]),
    ('b32-flat', 'C32', [(ST, "arg.flatten(with_decorators)", "arg.flatten()")]),
    ('b32-sep', 'C32', [(ST, "', '.join([arg.flatten", "','.join([arg.flatten")]),
    ('b32-any', 'C32', [(ST, "any([arg.code == arg_code", "all([arg.code == arg_code")]),
    ('b32-arg', 'C32', [(ST, "return self.__args[idx]", "return self.__args[idx - 1]")]),
    ('b32-iter', 'C32', [(ST, "        self.__args = args\n", "        self.__args = args\n        self.__iter = iter(args)\n"), (ST, "        return iter(self.__args)", "        return self.__iter")]),
    ('b32-neg', 'C32', [(AR, "if with_decorators and not self.is_affirmative:", "if not self.is_affirmative:")]),
    ('b32-tag', 'C32', [(AR, "{ArgCode.INTR.value, ArgCode.REC.value, ArgCode.TRANS.value}", "{ArgCode.INTR.value, ArgCode.TRANS.value}")]),
    ('b32-check', 'C32', [(AR, "        if code not in self.__codes:\n            raise ArgumentValueError('code', code, self.__codes)\n", "")]),
    ('b32-stuples', 'C32', [(DO, "[stuple for sent in self.sentences for stuple in sent.stuples]", "[stuple for sent in reversed(self.sentences) for stuple in sent.stuples]")]),
    ('b32-dociter', 'C32', [(DO, "        return iter(self.sentences)", "        while self.sentences:\n            yield self.sentences.pop(0)")]),
    ('b32-codestr', 'C32', [(AR, "        self.code = code\n", "        self.code = code.upper()\n")]),
    # C34
    ('b34-check', 'C34', [(LB, "max_order < 2:", "max_order < 1:")]),
    ('b34-smooth', 'C34', [(LB, "        if smoothing not in self.__smoothing_methods:\n            raise ArgumentValueError('smoothing', smoothing, self.__smoothing_methods)\n", "")]),
    ('b34-err', 'C34', [(LB, "            raise ModifiedKneserNeyMinOrderError()", "            max_order = 2")]),
    ('b34-lastbatch', 'C34', [(LB, "                    consumed = True\n                    break\n", "                    consumed = True\n                    batch = []\n                    break\n")]),
    ('b34-order', 'C34', [(LB, "                for n in range(1, self.__max_order + 1):\n                    for ngram", "                for n in range(1, self.__max_order):\n                    for ngram")]),
    ('b34-smoother', 'C34', [(LB, "        if smoothing == 'modified_kneser_ney':\n            self.__smoother = MKNSmoother", "        if smoothing == 'maximum_likelihood_estimation':\n            self.__smoother = MKNSmoother")]),
    ('b34-files', 'C34', [(LB, "        for n in range(1, self.__max_order + 1):\n            self.__write", "        for n in range(2, self.__max_order + 1):\n            self.__write")]),
    ('b34-map', 'C34', [(LB, "texts_tokens = pool.map(self.__sentencize, batch)", "texts_tokens = pool.map(self.__sentencize, set(batch))")]),
]
