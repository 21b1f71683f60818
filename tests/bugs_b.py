"""Edits that break a property (second part: C13-C19)."""
NO, CH, FX, CA, IN, LE, ST, TX, ND = ('syntax/nodifier.py', 'syntax/chunker.py', 'syntax/fixer.py', 'normalization/canonicalizer.py',
    'normalization/inflector.py', 'normalization/lemmatizer.py', 'normalization/standardizer.py', 'utils/text.py', 'syntax/node.py')
E = [
    # C13
    ('b13-flat-tag', 'C13', [(NO, "cfg.COMPOUND_JOIN.join(flat_tokens), tags[idx])", "cfg.COMPOUND_JOIN.join(flat_tokens), tags[anc_idx])")]),
    ('b13-flat-order', 'C13', [(NO, "flat_tokens = [tokens[i] for i in anc_branch] + [token]", "flat_tokens = [tokens[i] for i in sorted([idx] + anc_branch)]")]),
    ('b13-flat-key', 'C13', [(NO, "anc_idx = anc_branch[0]", "anc_idx = anc_branch[-1]")]),
    ('b13-part-case', 'C13', [(NO, "node.particles.append(tokens[i].lower())", "node.particles.append(tokens[i])")]),
    ('b13-to-case', 'C13', [(NO, "elif tokens[i].lower() == 'to':", "elif tokens[i] == 'to':")]),
    ('b13-part-nosort', 'C13', [(NO, "for i in sorted(particle_idxs):", "for i in particle_idxs:")]),
    ('b13-part-node-overwrites', 'C13', [(NO, "                node_dict[idx] = node\n", "                node_dict.setdefault(idx, node)\n")]),
    ('b13-nodep', 'C13', [(NO, "            if idx not in node_dict and idx not in bl_idxs:", "            if idx not in node_dict and (idx not in bl_idxs or not idx_tree.has_node(idx)):")]),
    ('b13-root-only', 'C13', [(NO, "return {idx_tree.root: root_node}, Tree(root_node)", "return {0: root_node}, Tree(root_node)")]),
    ('b13-func-children', 'C13', [(NO, "                if child_idx in node_dict:", "                if child_idx in node_dict and child_dep not in FUNCTIONAL_DEPS:")]),
    ('b13-key', 'C13', [(NO, "node_dict = {node.idx: node for node in node_dict.values() if", "node_dict = {idx: node for idx, node in node_dict.items() if")]),
    ('b13-node-std', 'C13', [(ND, "self.standard = text.lower()", "self.standard = text")]),
    ('b13-flat-leaf', 'C13', [(NO, "            if not idx_tree.children(idx):\n                dep_idx", "            if not idx_tree.has_child_via(idx, Dep.FLAT):\n                dep_idx")]),
    # C14
    ('b14-sort', 'C14', [(CH, "    nouns.sort(key=lambda x: x.idx)\n", "    nouns.reverse()\n")]),
    ('b14-sort-lemma', 'C14', [(CH, "nouns.sort(key=lambda x: x.idx)", "nouns.sort(key=lambda x: -x.idx)")]),
    ('b14-before', 'C14', [(CH, "noun.idx < parent.idx", "noun.idx <= parent.idx + 1")]),
    ('b14-marker', 'C14', [(CH, "not node_tree.has_child_via_set(noun, MARKER_DEPS)", "not node_tree.has_child_via(noun, Dep.MARK)")]),
    ('b14-depth', 'C14', [(CH, "            nouns.append(_cnoun)\n            _chunk_recursive(_cnoun)\n", "            nouns.append(_cnoun)\n            nouns.extend(compound_nouns.get(_cnoun, []))\n")]),
    ('b14-parent', 'C14', [(CH, "n in compound_nouns and n not in have_parent]", "n in compound_nouns]")]),
    ('b14-parenttag', 'C14', [(CH, " \\\n                        and parent.tag in NOUN_TAGS:", ":")]),
    ('b14-canon', 'C14', [(CH, "[n.lemma for n in nouns]", "[n.standard for n in nouns]")]),
    ('b14-haveparent', 'C14', [(CH, "                    have_parent.add(noun)", "                    if parent not in have_parent:\n                        have_parent.add(noun)")]),
    # C15
    ('b15-elif', 'C15', [(FX, "                    elif node.lemma in", "                    if node.lemma in")]),
    ('b15-children', 'C15', [(FX, "        if not node_tree.children(node):\n", "        if not node_tree.has_child_via(node, Dep.CPL):\n")]),
    ('b15-parenttag', 'C15', [(FX, "dep == Dep.CPL and parent.tag in NOUN_TAGS", "dep == Dep.CPL and parent.tag == Tag.NOUN")]),
    ('b15-propdeps', 'C15', [(FX, "dep in PROP_DEPS", "dep == Dep.PROP")]),
    ('b15-tags', 'C15', [(FX, "node.lemma in self.__adjs and node.tag in NOUN_TAGS", "node.lemma in self.__adjs and node.tag != Tag.ADJ")]),
    ('b15-standard', 'C15', [(FX, "elif node.lemma in self.__nouns", "elif node.standard in self.__nouns")]),
    ('b15-precedence', 'C15', [(FX, "                    if node.lemma in self.__adjs and node.tag in NOUN_TAGS:\n                        node.tag = Tag.ADJ\n                    elif node.lemma in self.__nouns and node.tag == Tag.ADJ:\n                        node.tag = Tag.NOUN", "                    if node.lemma in self.__adjs:\n                        node.tag = Tag.ADJ\n                    elif node.lemma in self.__nouns:\n                        node.tag = Tag.NOUN")]),
    # C16
    ('b16-pron', 'C16', [(CA, "if node.tag == Tag.PRON and node.lemma in", "if node.lemma in")]),
    ('b16-her', 'C16', [(CA, "'her': 'she'", "'her': 'her'")]),
    ('b16-chunk', 'C16', [(CA, "if node.tag == Tag.NOUN and node.chunk:", "if node.chunk:")]),
    ('b16-lemma', 'C16', [(CA, "self.__lemmatize(node.standard, Tag.VERB)", "self.__lemmatize(node.lemma, Tag.VERB)")]),
    ('b16-active', 'C16', [(CA, "node.active_verb = _particle_compound(lemma, node)", "node.active_verb = lemma")]),
    ('b16-active2', 'C16', [(CA, "node.active_verb = _particle_compound(lemma, node)", "node.active_verb = _particle_compound(node.lemma, node)")]),
    ('b16-past', 'C16', [(CA, "if node.suffix == Suffix.PAST:", "if node.suffix is not None:")]),
    ('b16-suffix', 'C16', [(CA, "            lemma, node.suffix = self.__lemmatize(node.standard, Tag.VERB)\n            if node.suffix ==", "            lemma, suffix = self.__lemmatize(node.standard, Tag.VERB)\n            node.suffix = node.suffix or suffix\n            if suffix ==")]),
    ('b16-join', 'C16', [(CA, "cfg.COMPOUND_JOIN.join([lemma] + verb.particles)", "cfg.COMPOUND_JOIN.join([lemma] + verb.particles[:1])")]),
    ('b16-sortpart', 'C16', [(CA, "[lemma] + verb.particles)", "[lemma] + sorted(verb.particles))")]),
    # C17
    ('b17-case', 'C17', [(LE, "        word = word.lower()\n", "        word = word.lower() if tag != Tag.PROPN else word\n")]),
    ('b17-bare', 'C17', [(LE, "__bare_ed = {'need'}", "__bare_ed = {'need', 'feed'}")]),
    ('b17-order', 'C17', [(LE, '''            if word in self.__pp_lemma:
                return self.__pp_lemma[word], Suffix.PAST
            if word in self.__preterit_lemma:
                return self.__preterit_lemma[word], Suffix.PAST
''', '''            if word in self.__preterit_lemma:
                return self.__preterit_lemma[word], Suffix.PAST
            if word in self.__pp_lemma:
                return self.__pp_lemma[word], Suffix.PAST
''')]),
    ('b17-comp', 'C17', [(LE, "return self.__comparative_lemma[word], Suffix.COMPARATIVE", "return self.__comparative_lemma[word], Suffix.SUPERLATIVE")]),
    ('b17-prefix', 'C17', [(LE, "                return prefix + lemma_suffix[0], lemma_suffix[1]\n", "                return lemma_suffix[0], lemma_suffix[1]\n")]),
    ('b17-lmprefix', 'C17', [(LE, "                    return _prefix + _best, _suffix\n", "                    return _best, _suffix\n")]),
    ('b17-len', 'C17', [(LE, "start = token_start(word, 'ies', 1)", "start = token_start(word, 'ies', 2)")]),
    ('b17-noun-ss', 'C17', [(LE, "not any([word.endswith('ss'), self.__lm.has_ngram(word + 'es')])", "not word.endswith('ss')")]),
    ('b17-ves', 'C17', [(LE, "['f', 'fe', 've'], Suffix.PLURAL", "['f', 'fe'], Suffix.PLURAL")]),
    ('b17-adjs', 'C17', [(LE, "if start is not None and word not in self.__adjs:", "if start is not None:")]),
    ('b17-unknown', 'C17', [(LE, "            return word, None\n\n        # Adjectives", "            return _start + _endings[0], _suffix\n\n        # Adjectives")]),
    ('b17-cand', 'C17', [(LE, "            if self.__lm.has_ngram(candidate):\n                return candidate\n            return None", "            return candidate")]),
    ('b17-last', 'C17', [(LE, "return best_ngram.split()[-1]", "return best_ngram.split()[0]")]),
    ('b17-before', 'C17', [(LE, "        if tag == Tag.VERB:\n            tokens_before", "        if tag != Tag.NOUN:\n            tokens_before")]),
    ('b17-tokenstart', 'C17', [(TX, "if len(start) >= start_min_length:", "if len(start) > start_min_length:")]),
    ('b17-dbl', 'C17', [(TX, "return [token[-1], token[-1] + token[-1]]", "return [token[-1] + token[-1], token[-1]]")]),
    ('b17-prefix2', 'C17', [(TX, "    if len(els) == 2:", "    if len(els) >= 2:")]),
    ('b17-swap', 'C17', [(LE, "[start[-1], start[-1] + 'e'], Suffix.PAST)", "[start[-1] + 'e', start[-1]], Suffix.PAST)")]),
    ('b17-propn', 'C17', [(LE, "        if tag == Tag.NOUN:\n            # Min length 6: [criteri]", "        if tag in NOUN_TAGS:\n            # Min length 6: [criteri]")]),
    # C18
    ('b18-five', 'C18', [(ST, "self.__lm.has_ngram(token, 5)", "self.__lm.has_ngram(token, 6)")]),
    ('b18-order', 'C18', [(ST, "start + 'or', start + 'our')", "start + 'our', start + 'or')")]),
    ('b18-end', 'C18', [(ST, "                    return best_lemma + end\n        # standard", "                    return best_lemma\n        # standard")]),
    ('b18-len2', 'C18', [(ST, "        start_mid_end = _split_token(token, ['c', 's'], ['ives', 'ive', 'es', 'e'])\n        if start_mid_end is not None:\n            start, _, end = start_mid_end\n            if len(start) > 2:", "        start_mid_end = _split_token(token, ['c', 's'], ['ives', 'ive', 'es', 'e'])\n        if start_mid_end is not None:\n            start, _, end = start_mid_end\n            if len(start) > 1:")]),
    ('b18-match', 'C18', [(ST, "re.fullmatch(pattern, token)", "re.match(pattern, token)")]),
    ('b18-case', 'C18', [(ST, ", re.I)", ")")]),
    ('b18-ends', 'C18', [(ST, "['ing', 'ed', 's', '']", "['ing', 'ed', '']")]),
    ('b18-ogue', 'C18', [(ST, "['og', 'ogue'], ['s', '']", "['og', 'ogue'], ['s', 'd', '']")]),
    ('b18-ae', 'C18', [(ST, "token.replace('ae', 'e'), token)", "token.replace('ae', 'e', 1), token)")]),
    ('b18-ae2', 'C18', [(ST, "token.find('ae') > -1", "token.find('ae') > 0")]),
    ('b18-none', 'C18', [(ST, "                best_lemma = self.__lm.best_ngram(start + 'el' + end, start + 'ell' + end)\n                if best_lemma is not None:\n                    return best_lemma", "                return self.__lm.best_ngram(start + 'el' + end, start + 'ell' + end) or token")]),
    ('b18-mid', 'C18', [(ST, "start + mid[0] + 'ze', start + mid[0] + 'se')", "start + mid + 'e', start + mid[0] + 'se')")]),
    # C19
    ('b19-tab', 'C19', [(IN, "            return self.__lemma_pp[lemma]\n", "            return self.__lemma_pp[lemma.lower()]\n")]),
    ('b19-ie', 'C19', [(IN, "lemma[-3] in CONSONANTS and lemma.endswith('ie')", "lemma[-3] in VOWELS and lemma.endswith('ie')")]),
    ('b19-y', 'C19', [(IN, "if lemma[-2] in CONSONANTS and lemma[-1] == 'y':", "if lemma[-1] == 'y':")]),
    ('b19-e', 'C19', [(IN, "if lemma[-2] in CONSONANTS and lemma.endswith('e'):", "if lemma.endswith('e'):")]),
    ('b19-dbl', 'C19', [(IN, "lemma + lemma[-1] + 'ed')", "lemma + lemma[-1] + 'd')")]),
    ('b19-ngram', 'C19', [(IN, "self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')", "self.__lm.best_token(lemma + lemma[-1] + 'ed', lemma + 'ed')")]),
    ('b19-len', 'C19', [(IN, "            if len(lemma) > 1:\n", "            if len(lemma) > 2:\n")]),
    ('b19-vow', 'C19', [(TX, "VOWELS = set('eyuioa')", "VOWELS = set('euioa')")]),
    ('b19-cons', 'C19', [(TX, "CONSONANTS = set('qwrtpsdfghjklzxcvbnm')", "CONSONANTS = set('qrtpsdfghjklzxcvbnm')")]),
]
