"""Small edits that keep the behaviour."""
SE = 'semantics/semantic_tuple_extractor.py'
AF = 'syntax/arg_finder.py'
CH = 'syntax/chunker.py'
NO = 'syntax/nodifier.py'
ND = 'syntax/node.py'
FX = 'syntax/fixer.py'
PA = 'syntax/parser.py'
TG = 'syntax/tagger.py'
TS = 'syntax/training_samples.py'
CS = 'syntax/charset.py'
WS = 'syntax/wordset.py'
DP = 'syntax/dependencies.py'
SN = 'preprocessing/sentencizer.py'
TK = 'preprocessing/tokenizer.py'
SA = 'preprocessing/sanitization.py'
TX = 'utils/text.py'
TR = 'utils/tree.py'
FI = 'utils/files.py'
MU = 'utils/mutables.py'
MT = 'utils/multithreading.py'
TI = 'utils/timer.py'
ST = 'normalization/standardizer.py'
CA = 'normalization/canonicalizer.py'
IN = 'normalization/inflector.py'
LE = 'normalization/lemmatizer.py'
AR = 'semantics/argument.py'
TU = 'semantics/semantic_tuple.py'
LM = 'langmodel/language_model.py'
LB = 'langmodel/language_model_builder.py'
NG = 'langmodel/ngram.py'
TC = 'langmodel/token_context.py'
NE = 'langmodel/ngrams_extraction.py'
NS = 'langmodel/ngram_store.py'
SM = 'langmodel/smoother.py'
ML = 'langmodel/mle_smoother.py'
MK = 'langmodel/mkn_smoother.py'
PI = 'pipeline/pipeline.py'
LP = 'pipeline/logic_pipeline.py'
DO = 'pipeline/document.py'

E = [
    # extractor
    ('t-se-pol', None, [(SE, "return sum([not node.is_aff for node in set(nodes)]) % 2 == 0", "return not sum([not node.is_aff for node in set(nodes)]) % 2")]),
    ('t-se-pol2', None, [(SE, "return sum([not node.is_aff for node in set(nodes)]) % 2 == 0", "return len([node for node in set(nodes) if not node.is_aff]) % 2 == 0")]),
    ('t-se-pol3', None, [(SE, "return sum([not node.is_aff for node in set(nodes)]) % 2 == 0", "return sum(1 for node in set(nodes) if not node.is_aff) % 2 == 0")]),
    ('t-se-is', None, [(SE, "if noun.tag == Tag.PROPN:", "if noun.tag is Tag.PROPN:")]),
    ('t-se-any', None, [(SE, "if node.tag == Tag.VERB and not any([node.is_inf_to, node.cannot_be_transitive]):\n                stuples.extend(self.__make_stuples_from_verbs", "if node.tag == Tag.VERB and not (node.is_inf_to or node.cannot_be_transitive):\n                stuples.extend(self.__make_stuples_from_verbs")]),
    ('t-se-round2', None, [(SE, "for node in [n for n in nodes if n not in blocked_for_round_2]:", "for node in filter(lambda n: n not in blocked_for_round_2, nodes):")]),
    ('t-se-len', None, [(SE, "if not obj_1.subjs:", "if len(obj_1.subjs) == 0:")]),
    ('t-se-iadd', None, [(SE, "                stuples.extend(self.__make_stuples_from_iobj(node))", "                stuples += self.__make_stuples_from_iobj(node)")]),
    ('t-se-xnor', None, [(SE, "xnor(subj.is_aff, verb.is_aff))\n                stuples.append(SemanticTuple(subj_arg, verb_arg))", "subj.is_aff == verb.is_aff)\n                stuples.append(SemanticTuple(subj_arg, verb_arg))")]),
    ('t-se-xnororder', None, [(SE, "xnor(subj.is_aff, verb.is_aff, iobj.is_aff)", "xnor(iobj.is_aff, subj.is_aff, verb.is_aff)")]),
    ('t-se-gen', None, [(SE, "xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)", "xnor(any(subj.is_aff for subj in subjs), verb.is_aff, obj.is_aff)")]),
    ('t-se-star', None, [(SE, "pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)\n                adj_arg", "pp = cfg.COMPOUND_JOIN.join([pp, *verb.particles])\n                adj_arg")]),
    ('t-se-be', None, [(SE, "Argument(' '.join(['be', pp.canon])", "Argument('be ' + pp.canon")]),
    ('t-se-befmt', None, [(SE, "Argument(' '.join(['be', pp]),", "Argument('be %s' % pp,")]),
    ('t-se-none', None, [(SE, "            if subj is None:\n                is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)\n            else:\n                is_aff = xnor(subj.is_aff, verb.is_aff, noun.is_aff, iprop.is_aff)", "            if subj is not None:\n                is_aff = xnor(subj.is_aff, verb.is_aff, noun.is_aff, iprop.is_aff)\n            else:\n                is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)")]),
    ('t-se-subjs2', None, [(SE, "                if not obj_1.subjs:\n                    subjs_2 = [subj_1]  # e.g. \"I want to sing\"\n                else:\n                    subjs_2 = [s for s in obj_1.subjs if s.tag in NOUN_TAGS]\n", "                subjs_2 = [s for s in obj_1.subjs if s.tag in NOUN_TAGS] if obj_1.subjs else [subj_1]\n")]),
    ('t-se-notpassive', None, [(SE, "__not_passive = {'have', 'get'}", "__not_passive = frozenset(['have', 'get'])")]),
    ('t-se-adjcode', None, [(SE, "    if adj.active_verb:\n        return ArgCode.PP.value\n    return ArgCode.ADJ.value", "    return ArgCode.PP.value if adj.active_verb else ArgCode.ADJ.value")]),
    ('t-se-value', None, [(SE, "        return ArgCode.PROPN.value", "        return 'P'")]),
    # arg finder
    ('t-af-marker', None, [(AF, "    for cpl in cpl.aggreg:\n        if marker.canon == 'by':", "    for cpl in cpl.aggreg:\n        if 'by' == marker.canon:")]),
    ('t-af-set', None, [(AF, "if dep in {Dep.PROP, Dep.CPL}:", "if dep == Dep.PROP or dep == Dep.CPL:")]),
    ('t-af-neg', None, [(AF, "            for dep, child in tree.children(node):\n                if dep == Dep.NEG:\n                    node.is_aff = False\n", "            if any(dep == Dep.NEG for dep, _ in tree.children(node)):\n                node.is_aff = False\n")]),
    ('t-af-negdep', None, [(AF, "            for dep, child in tree.children(node):\n                if dep == Dep.NEG:\n                    node.is_aff = False\n", "            if tree.has_child_via(node, Dep.NEG):\n                node.is_aff = False\n")]),
    ('t-af-none', None, [(AF, "                if not any([mark, imark, cmark]):", "                if mark is None and imark is None and cmark is None:")]),
    ('t-af-or', None, [(AF, "                if not any([mark, imark, cmark]):", "                if not (mark or imark or cmark):")]),
    ('t-af-subj', None, [(AF, "                    if ref:\n                        _register_subjs(parent, ref, tree)\n                    else:\n                        _register_subjs(parent, node, tree)\n", "                    _register_subjs(parent, ref or node, tree)\n")]),
    ('t-af-verbs', None, [(AF, "    verbs = [verb]\n    for v in verb.cconjs:\n        if not tree.children(v):\n            verbs.append(v)\n", "    verbs = [verb] + [v for v in verb.cconjs if not tree.children(v)]\n")]),
    ('t-af-direct', None, [(AF, "    verb.iobjs.extend(iobj.aggreg)", "    for node in iobj.aggreg:\n        verb.iobjs.append(node)")]),
    ('t-af-iadd', None, [(AF, "    noun.adjs.extend(adj.aggreg)", "    noun.adjs += adj.aggreg")]),
    ('t-af-ret', None, [(AF, "        if pron.canon in self.__reflexive_pronouns:\n            subj = tree.child_via(verb, Dep.SUBJ)\n            if subj:\n                return subj\n        return None", "        if pron.canon in self.__reflexive_pronouns:\n            return tree.child_via(verb, Dep.SUBJ)\n        return None")]),
    ('t-af-truthy', None, [(AF, "            if dep_parent:\n                dep, parent = dep_parent\n                if dep == Dep.OBJ and", "            if dep_parent is not None:\n                dep, parent = dep_parent\n                if dep == Dep.OBJ and")]),
    ('t-af-all', None, [(AF, "                elif all([node in naked_cpls, parent.tag in NOUN_TAGS, not tree.has_child_via(node, Dep.OBJ)]):", "                elif node in naked_cpls and parent.tag in NOUN_TAGS and not tree.has_child_via(node, Dep.OBJ):")]),
    ('t-af-continue', None, [(AF, "        for node in nodes:\n            node.and_cconjs = tree.children_via(node, Dep.AND)\n            node.or_cconjs = tree.children_via(node, Dep.OR)", "        for node in nodes:\n            node.or_cconjs = tree.children_via(node, Dep.OR)\n            node.and_cconjs = tree.children_via(node, Dep.AND)")]),
    ('t-af-iscpl', None, [(AF, "                parent = dep_parent[1]\n", "                _, parent = dep_parent\n")]),
    # chunker
    ('t-ch-get', None, [(CH, "compound_nouns.get(_noun, [])", "compound_nouns.get(_noun) or []")]),
    ('t-ch-if', None, [(CH, "        for _cnoun in compound_nouns.get(_noun, []):\n            nouns.append(_cnoun)\n            _chunk_recursive(_cnoun)", "        if _noun in compound_nouns:\n            for _cnoun in compound_nouns[_noun]:\n                nouns.append(_cnoun)\n                _chunk_recursive(_cnoun)")]),
    ('t-ch-sorted', None, [(CH, "    nouns.sort(key=lambda x: x.idx)\n    return cfg.COMPOUND_JOIN.join([n.lemma for n in nouns])", "    return cfg.COMPOUND_JOIN.join(n.lemma for n in sorted(nouns, key=lambda x: x.idx))")]),
    ('t-ch-gt', None, [(CH, "noun.idx < parent.idx", "parent.idx > noun.idx")]),
    ('t-ch-order', None, [(CH, "                    append_to_dict_list(compound_nouns, parent, noun)\n                    have_parent.add(noun)", "                    have_parent.add(noun)\n                    append_to_dict_list(compound_nouns, parent, noun)")]),
    ('t-ch-setdefault', None, [(CH, "append_to_dict_list(compound_nouns, parent, noun)", "compound_nouns.setdefault(parent, []).append(noun)")]),
    ('t-ch-notin', None, [(CH, "n in compound_nouns and n not in have_parent", "n not in have_parent and n in compound_nouns")]),
    ('t-ch-join', None, [(CH, "cfg.COMPOUND_JOIN.join([n.lemma for n in nouns])", "cfg.COMPOUND_JOIN.join(map(lambda n: n.lemma, nouns))")]),
    # nodifier
    ('t-no-range', None, [(NO, "        for idx, _ in enumerate(tokens):\n            if not idx_tree.has_node(idx):", "        for idx in range(len(tokens)):\n            if not idx_tree.has_node(idx):")]),
    ('t-no-set', None, [(NO, "bl_idxs |= set([idx] + anc_branch)", "bl_idxs.update([idx] + anc_branch)")]),
    ('t-no-set2', None, [(NO, "bl_idxs |= set([idx] + anc_branch)", "bl_idxs |= {idx, *anc_branch}")]),
    ('t-no-upd', None, [(NO, "bl_idxs |= set(particle_idxs)", "bl_idxs.update(particle_idxs)")]),
    ('t-no-comp', None, [(NO, "            particle_idxs = []\n            for child_dep, child_idx in idx_tree.children(idx):\n                if child_dep == Dep.PART:\n                    particle_idxs.append(child_idx)\n", "            particle_idxs = [i for dep, i in idx_tree.children(idx) if dep == Dep.PART]\n")]),
    ('t-no-via', None, [(NO, "            particle_idxs = []\n            for child_dep, child_idx in idx_tree.children(idx):\n                if child_dep == Dep.PART:\n                    particle_idxs.append(child_idx)\n", "            particle_idxs = idx_tree.children_via(idx, Dep.PART)\n")]),
    ('t-no-not', None, [(NO, "            if idx not in node_dict and idx not in bl_idxs:", "            if not (idx in node_dict or idx in bl_idxs):")]),
    ('t-no-flat', None, [(NO, "flat_tokens = [tokens[i] for i in anc_branch] + [token]", "flat_tokens = [tokens[i] for i in anc_branch + [idx]]")]),
    ('t-no-union', None, [(NO, "            if idx not in node_dict and idx not in bl_idxs:", "            if idx not in bl_idxs and idx not in node_dict:")]),
    ('t-no-root', None, [(NO, "        if len(idx_tree) == 1:", "        if len(idx_tree) < 2:")]),
    # node
    ('t-nd-aggreg', None, [(ND, "return [self] + self.and_cconjs + self.or_cconjs", "return [self] + self.cconjs")]),
    ('t-nd-aggreg2', None, [(ND, "return [self] + self.and_cconjs + self.or_cconjs", "return [self, *self.and_cconjs, *self.or_cconjs]")]),
    ('t-nd-any', None, [(ND, "return any([self.props, self.iprops, self.exists])", "return bool(self.props or self.iprops or self.exists)")]),
    ('t-nd-lemma', None, [(ND, "        self.lemma = self.standard\n", "        self.lemma = text.lower()\n")]),
    # fixer
    ('t-fx-or', None, [(FX, "if any([dep == Dep.CPL and parent.tag in NOUN_TAGS, dep in PROP_DEPS]):", "if dep in PROP_DEPS or dep == Dep.CPL and parent.tag in NOUN_TAGS:")]),
    ('t-fx-none', None, [(FX, "            if dep_parent:", "            if dep_parent is not None:")]),
    ('t-fx-order', None, [(FX, "node.lemma in self.__adjs and node.tag in NOUN_TAGS", "node.tag in NOUN_TAGS and node.lemma in self.__adjs")]),
    # parser
    ('t-pa-any', None, [(PA, "return any([child_idx == idx for _, _, child_idx in self.arcs])", "return idx in [child_idx for _, _, child_idx in self.arcs]")]),
    ('t-pa-anyset', None, [(PA, "return any([child_idx == idx for _, _, child_idx in self.arcs])", "return idx in {arc[2] for arc in self.arcs}")]),
    ('t-pa-pdep', None, [(PA, "        if pdep == Dep.ROOT:\n            return Dep.SPLIT  # ROOT cannot have any parent\n        return pdep", "        return Dep.SPLIT if pdep == Dep.ROOT else pdep")]),
    ('t-pa-len', None, [(PA, "        return not self.__buffer\n", "        return len(self.__buffer) == 0\n")]),
    ('t-pa-root', None, [(PA, "            cands |= {pdix, cidx}\n            cannot_be_root.add(cidx)", "            cands.add(pdix)\n            cands.add(cidx)\n            cannot_be_root.add(cidx)")]),
    ('t-pa-root2', None, [(PA, "            cands |= {pdix, cidx}\n", "            cands.add(pdix)\n")]),
    ('t-pa-min', None, [(PA, "        try:\n            return sorted(cands - cannot_be_root)[0]\n        except IndexError:\n            return None", "        return min(cands - cannot_be_root, default=None)")]),
    ('t-pa-tree', None, [(PA, "        for dep, parent_idx, child_idx in parse.arcs:\n            tree.register_child(dep, parent_idx, child_idx)", "        for arc in parse.arcs:\n            tree.register_child(*arc)")]),
    ('t-pa-else', None, [(PA, "    if root is None:\n        return None\n    else:\n        tree = Tree(root)\n        for dep, parent_idx, child_idx in parse.arcs:\n            tree.register_child(dep, parent_idx, child_idx)\n        return tree", "    if root is None:\n        return None\n    tree = Tree(root)\n    for dep, parent_idx, child_idx in parse.arcs:\n        tree.register_child(dep, parent_idx, child_idx)\n    return tree")]),
    ('t-pa-batches', None, [(PA, "            parse_batches = make_batches(incomplete_parses, self.__batch_size)\n            for batch in parse_batches:", "            for batch in make_batches(incomplete_parses, self.__batch_size):")]),
    ('t-pa-inc', None, [(PA, "                self.__predict_transitions(batch)\n            incomplete_parses = [parse for parse in all_parses if not parse.complete]", "                self.__predict_transitions(batch)\n            incomplete_parses = [parse for parse in incomplete_parses if not parse.complete]")]),
    ('t-pa-stack', None, [(PA, "self.__stack = collections.deque([])", "self.__stack = collections.deque()")]),
    ('t-pa-elif', None, [(PA, "        elif trans == Trans.SHIFT:\n            self.__shift()", "        elif trans in (Trans.SHIFT,):\n            self.__shift()")]),
    ('t-pa-slice', None, [(PA, "self.tags = [Tag(code) for code in tag_codes[1:seq_length - 1]]", "self.tags = list(map(Tag, tag_codes[1:seq_length - 1]))")]),
    ('t-pa-deque', None, [(PA, "collections.deque([idx for idx in range(seq_length - 2) if self.__deps[idx] != Dep.NODEP])", "collections.deque([idx for idx, dep in enumerate(self.__deps) if dep != Dep.NODEP])")]),
    # sentencizer
    ('t-sn-strip', None, [(SN, "            number = str(len(ctr) - 1)\n", "            number = '%d' % (len(ctr) - 1)\n")]),
    ('t-sn-len', None, [(SN, "            ctr.append(quote[1:-1].replace('¶', ' '))\n            number = str(len(ctr) - 1)\n", "            number = str(len(ctr))\n            ctr.append(quote[1:-1].replace('¶', ' '))\n")]),
    ('t-sn-method', None, [(SN, "blocks = re.split(self.__re_newline, text)", "blocks = self.__re_newline.split(text)")]),
    ('t-sn-full', None, [(SN, "if re.fullmatch(self.__re_sent_enders, token):", "if self.__re_sent_enders.fullmatch(token):")]),
    ('t-sn-fullnone', None, [(SN, "if re.fullmatch(self.__re_sent_enders, token):", "if re.fullmatch(self.__re_sent_enders, token) is not None:")]),
    ('t-sn-iter', None, [(SN, "re.finditer(pattern, text)]:", "pattern.finditer(text)]:")]),
    ('t-sn-group0', None, [(SN, "(m.group(), m.start(), m.end())", "(m[0], m.start(), m.end())")]),
    ('t-sn-span', None, [(SN, "(m.group(), m.start(), m.end())", "(m.group(0), *m.span())")]),
    ('t-sn-last', None, [(SN, "        if current_sent:\n            sents.append(current_sent)\n        return sents", "        if len(current_sent) > 0:\n            sents.append(current_sent)\n        return sents")]),
    ('t-sn-fmt', None, [(SN, "text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]", "'%s %s%s%s %s' % (text[:sidx - shift], block_starter, number, block_ender, text[eidx - shift:])")]),
    ('t-sn-fstr', None, [(SN, "text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]", "f'{text[:sidx - shift]} {block_starter}{number}{block_ender} {text[eidx - shift:]}'")]),
    ('t-sn-rename', None, [(SN, "                        idx = int(token[1:-1])\n                        sent_tokens_with_blocks.append('(')\n                        for nested_token in self.__tokenize(brackets[idx]):", "                        sent_tokens_with_blocks.append('(')\n                        for nested_token in self.__tokenize(brackets[int(token[1:-1])]):")]),
    ('t-sn-pil', None, [(SN, "                if token != '¶':\n                    current_sent.append(token)\n                sents.append(current_sent)", "                if not token == '¶':\n                    current_sent.append(token)\n                sents.append(current_sent)")]),
    ('t-sn-quote', None, [(SN, "            _ctr.append('\"')\n            _ctr.extend(self.__tokenize(quotes[int(_token[1:-1])]))\n            _ctr.append('\"')", "            _ctr.extend(['\"'] + self.__tokenize(quotes[int(_token[1:-1])]) + ['\"'])")]),
    # tokenizer
    ('t-tk-not', None, [(TK, "        if not text:\n            return ['']", "        if text is None or text == '':\n            return ['']")]),
    ('t-tk-any', None, [(TK, "any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot])", "any(regex.fullmatch(token) for regex in self.__re_token_nosplit_dot)")]),
    ('t-tk-sub', None, [(TK, "        text = re.sub(self.__re_always_split, r' \\g<0> ', text)", "        text = self.__re_always_split.sub(r' \\g<0> ', text)")]),
    ('t-tk-dot', None, [(TK, "text = re.sub(self.__re_no_split_dot, '.', text)", "text = text.replace(self.__nsd, '.')")]),
    ('t-tk-tuple', None, [(TK, "        for replace in self.__re_reattach:\n            text = re.sub(replace[0], replace[1], text)", "        for pattern, replace in self.__re_reattach:\n            text = re.sub(pattern, replace, text)")]),
    ('t-tk-while', None, [(TK, "            while match:", "            while match is not None:")]),
    ('t-tk-key', None, [(TK, "key = '_PROTECTED_%d_' % index", "key = '_PROTECTED_' + str(index) + '_'")]),
    ('t-tk-idx', None, [(TK, "        index = 1\n", ""), (TK, "key = '_PROTECTED_%d_' % index", "key = '_PROTECTED_%d_' % (len(protected) + 1)"), (TK, "                index += 1\n", "")]),
    ('t-tk-abbr', None, [(TK, "'|'.join([abbr for abbr in __abbr])", "'|'.join(__abbr)")]),
    ('t-tk-gen', None, [(TK, "        for nsp in self.__re_no_split:\n            text = re.sub(nsp[0], nsp[1], text)", "        for pattern, replace in self.__re_no_split:\n            text = pattern.sub(replace, text)")]),
    # sanitization
    ('t-sa-unpack', None, [(SA, "        for rep in patterns_replacements:\n            text = re.sub(rep[0], rep[1], text)", "        for pattern, replacement in patterns_replacements:\n            text = re.sub(pattern, replacement, text)")]),
    ('t-sa-exc', None, [(SA, "except (AttributeError, KeyError):", "except (KeyError, AttributeError):")]),
    # text
    ('t-tx-bool', None, [(TX, "def has_only_letters(token: str) -> bool:\n    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))", "def has_only_letters(token: str) -> bool:\n    return re.fullmatch(_RE_ONLY_LETTERS, token) is not None")]),
    ('t-tx-method', None, [(TX, "def has_only_letters(token: str) -> bool:\n    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))", "def has_only_letters(token: str) -> bool:\n    return bool(_RE_ONLY_LETTERS.fullmatch(token))")]),
    ('t-tx-nest', None, [(TX, "        if len(start) >= start_min_length:\n            return start\n    return None", "        if start_min_length <= len(start):\n            return start\n    return None")]),
    ('t-tx-guard', None, [(TX, "    if token.endswith(ending) and len(token) > len(ending):\n        start = token[:-len(ending)]\n        if len(start) >= start_min_length:\n            return start\n    return None", "    if not token.endswith(ending) or len(token) <= len(ending):\n        return None\n    start = token[:-len(ending)]\n    return start if len(start) >= start_min_length else None")]),
    ('t-tx-dbl', None, [(TX, "return [token[-1], token[-1] + token[-1]]", "return [token[-1], token[-1] * 2]")]),
    ('t-tx-dbl2', None, [(TX, "return [token[-1], token[-1] + token[-1]]", "return [token[-1], token[-2:]]")]),
    ('t-tx-prefix', None, [(TX, "    if len(els) == 2:\n        return els[0] + '-', els[1]\n    else:\n        for verb_prefix in prefixes:\n            if token.startswith(verb_prefix):\n                return verb_prefix, token[len(verb_prefix):]\n    return None", "    if len(els) == 2:\n        return els[0] + '-', els[1]\n    for verb_prefix in prefixes:\n        if token.startswith(verb_prefix):\n            return verb_prefix, token[len(verb_prefix):]\n    return None")]),
    ('t-tx-unpack', None, [(TX, "    if len(els) == 2:\n        return els[0] + '-', els[1]\n", "    if len(els) == 2:\n        prefix, base = els\n        return prefix + '-', base\n")]),
    ('t-tx-func', None, [(TX, "    return str(function_name) + '(' + args_str + ')'", "    return '%s(%s)' % (function_name, args_str)")]),
    ('t-tx-diss', None, [(TX, "        word_1, word_2 = text.split('ǁ')\n        return word_1, word_2", "        first, second = text.split('ǁ')\n        return first, second")]),
    ('t-tx-attach', None, [(TX, "'»'.join([str(token)] + [str(a) for a in attrs if a is not None])", "'»'.join([str(token), *[str(a) for a in attrs if a is not None]])")]),
    ('t-tx-set', None, [(TX, "VOWELS = set('eyuioa')", "VOWELS = {'a', 'e', 'i', 'o', 'u', 'y'}")]),
    # tree
    ('t-tr-get', None, [(TR, "        try:\n            return self.__parents[node]\n        except KeyError:\n            return None", "        return self.__parents.get(node)")]),
    ('t-tr-if', None, [(TR, "        try:\n            return self.__children[node][label]\n        except KeyError:\n            return []", "        if node in self.__children and label in self.__children[node]:\n            return self.__children[node][label]\n        return []")]),
    ('t-tr-len', None, [(TR, "return 1 + len(self.__parents.keys())", "return len(self.__parents) + 1")]),
    ('t-tr-list', None, [(TR, "return [self.root] + list(self.__parents.keys())", "return [self.root, *self.__parents]")]),
    ('t-tr-or', None, [(TR, "return any([node in self.__children, node in self.__parents])", "return node in self.__children or node in self.__parents")]),
    ('t-tr-anygen', None, [(TR, "return any([key in labels for key in self.__children[node]])", "return any(key in labels for key in self.__children[node])")]),
    ('t-tr-inter', None, [(TR, "return any([key in labels for key in self.__children[node]])", "return not labels.isdisjoint(self.__children[node])")]),
    ('t-tr-has', None, [(TR, "            return label in self.__children[node]", "            return label in self.__children[node].keys()")]),
    ('t-tr-rev', None, [(TR, "        anc_branch.reverse()\n        return anc_branch", "        return anc_branch[::-1]")]),
    ('t-tr-rev2', None, [(TR, "        anc_branch.reverse()\n        return anc_branch", "        return list(reversed(anc_branch))")]),
    ('t-tr-climb', None, [(TR, "        _recurse_climb(node)\n        anc_branch.reverse()", "        _recurse_climb(node)\n\n        anc_branch.reverse()")]),
    ('t-tr-iter', None, [(TR, "        return iter([(label, parent, child) for child, (label, parent) in self.__parents.items()])", "        for child, (label, parent) in self.__parents.items():\n            yield label, parent, child")]),
    ('t-tr-neq', None, [(TR, "assert parent != child", "assert not parent == child")]),
    ('t-tr-sib', None, [(TR, "            _, parent = self.__parents[node]\n", "            parent = self.__parents[node][1]\n")]),
    # files
    ('t-fi-join', None, [(FI, "    path = cfg.DATA_DIR\n    for arg in args:\n        path /= arg\n    return str(path)", "    return str(cfg.DATA_DIR.joinpath(*args))")]),
    ('t-fi-dict', None, [(FI, "{key: value for key, value in [line.strip().split('\\t') for line in txt_file]}", "dict(line.strip().split('\\t') for line in txt_file)")]),
    ('t-fi-set', None, [(FI, "return {line.strip() for line in txt_file}", "return set(line.strip() for line in txt_file)")]),
    ('t-fi-mode', None, [(FI, "return open(file_path(*args), encoding=cfg.ENCODING)", "return open(file_path(*args), 'r', encoding=cfg.ENCODING)")]),
    # mutables
    ('t-mu-div', None, [(MU, "        return [[full_list] for full_list in items]", "        result = [[full_list] for full_list in items]")]),
    ('t-mu-gt', None, [(MU, "    if nb_lists <= len_list:", "    if len_list >= nb_lists:")]),
    ('t-mu-range', None, [(MU, "for i in range(len(ranges) - 1):", "for i in range(nb_lists):")]),
    ('t-mu-setdef', None, [(MU, "    if key in dic:\n        dic[key].append(item)\n    else:\n        dic[key] = [item]\n", "    dic.setdefault(key, []).append(item)\n")]),
    ('t-mu-notin', None, [(MU, "    if key in dic:\n        dic[key].append(item)\n    else:\n        dic[key] = [item]\n", "    if key not in dic:\n        dic[key] = []\n    dic[key].append(item)\n")]),
    ('t-mu-rev', None, [(MU, "return {v: k for k, v in dic.items()}", "return dict((v, k) for k, v in dic.items())")]),
    ('t-mu-rev2', None, [(MU, "return {v: k for k, v in dic.items()}", "return {dic[key]: key for key in dic}")]),
    # multithreading
    ('t-mt-zip', None, [(MT, "    for idx, _ in enumerate(items_lists):\n        nb_threads[idx].join()\n        output_items.extend(nb_threads[idx].output_items)", "    for thread in nb_threads:\n        thread.join()\n        output_items.extend(thread.output_items)")]),
    ('t-mt-start', None, [(MT, "        nb_threads.append(_Thread(idx, items_list, process))\n        nb_threads[idx].start()", "        thread = _Thread(idx, items_list, process)\n        thread.start()\n        nb_threads.append(thread)")]),
    ('t-mt-iadd', None, [(MT, "        output_items.extend(nb_threads[idx].output_items)", "        output_items += nb_threads[idx].output_items")]),
    ('t-mt-super', None, [(MT, "        threading.Thread.__init__(self)", "        super().__init__()")]),
    ('t-mt-loop', None, [(MT, "            self.output_items = [self.__process(item) for item in self.__input_items]", "            self.output_items = list(map(self.__process, self.__input_items))")]),
    ('t-mt-err', None, [(MT, "        if thread.error is not None:", "        if thread.error:")]),
    # timer
    ('t-ti-str', None, [(TI, "return '%d:%02d:%02d' % (hours, minutes, seconds)", "return '{:d}:{:02d}:{:02d}'.format(int(hours), int(minutes), int(seconds))")]),
    # standardizer
    ('t-st-in', None, [(ST, "if len(token) > 4 and token.find('ae') > -1:", "if len(token) > 4 and 'ae' in token:")]),
    ('t-st-in2', None, [(ST, "if len(token) > 4 and token.find('oe') > -1:", "if len(token) >= 5 and token.find('oe') != -1:")]),
    ('t-st-idx', None, [(ST, "        start, middle, end = match.group(1, 2, 3)", "        start, middle, end = match.groups()")]),
    ('t-st-none', None, [(ST, "    if match:\n        start, mid", "    if match is not None:\n        start, mid")]),
    ('t-st-fmt', None, [(ST, "self.__lm.best_ngram(start + 'og', start + 'ogue')", "self.__lm.best_ngram('%sog' % start, '%sogue' % start)")]),
    # canonicalizer
    ('t-ca-elif', None, [(CA, "        if node.tag == Tag.VERB:\n            node.canon = _particle_compound(node.lemma, node)\n            return\n        node.canon = node.lemma", "        if node.tag == Tag.VERB:\n            node.canon = _particle_compound(node.lemma, node)\n        else:\n            node.canon = node.lemma")]),
    ('t-ca-join', None, [(CA, "    if verb.particles:\n        return cfg.COMPOUND_JOIN.join([lemma] + verb.particles)\n    return lemma", "    return cfg.COMPOUND_JOIN.join([lemma] + verb.particles)")]),
    # inflector
    ('t-in-get', None, [(IN, "if lemma[-2] in CONSONANTS and lemma[-1] == 'y':", "if lemma.endswith('y') and lemma[-2] in CONSONANTS:")]),
    ('t-in-and', None, [(IN, "            if len(lemma) > 2:\n                if lemma[-3] in CONSONANTS and lemma.endswith('ie'):\n                    return lemma + 'd'", "            if len(lemma) > 2 and lemma[-3] in CONSONANTS and lemma.endswith('ie'):\n                return lemma + 'd'")]),
    ('t-in-best', None, [(IN, "                    if best:\n", "                    if best is not None:\n")]),
    # lemmatizer
    ('t-le-in', None, [(LE, "            if word in {\"'s\", 'is'}:", "            if word == 'is' or word == \"'s\":")]),
    ('t-le-elif', None, [(LE, "        if tag == Tag.ADV:\n            if word == 'better':", "        elif tag == Tag.ADV:\n            if word == 'better':")]),
    ('t-le-set', None, [(LE, "    __bare_ed = {'need'}", "    __bare_ed = frozenset({'need'})")]),
    ('t-le-unpack', None, [(LE, "                return prefix + lemma_suffix[0], lemma_suffix[1]", "                lemma, suffix = lemma_suffix\n                return prefix + lemma, suffix")]),
    ('t-le-start', None, [(LE, "return _lm_lemma(start[:-1], [start[-1], start[-1] + 'e'], Suffix.SUPERLATIVE)", "return _lm_lemma(start[:-1], [start[-1:], start[-1:] + 'e'], Suffix.SUPERLATIVE)")]),
    # argument, tuple
    ('t-ar-neg', None, [(AR, "        if with_decorators and not self.is_affirmative:", "        if not self.is_affirmative and with_decorators:")]),
    ('t-ar-fl', None, [(AR, "        strs = []\n        if with_decorators and not self.is_affirmative:\n            strs.append(cfg.NEGATION)\n        strs.append(self.word)\n        return ' '.join(strs)", "        if with_decorators and not self.is_affirmative:\n            return cfg.NEGATION + ' ' + self.word\n        return self.word")]),
    ('t-ar-str', None, [(AR, "    def __repr__(self):\n        return self.flatten()", "    def __repr__(self):\n        return str(self)")]),
    ('t-tu-gen', None, [(TU, "return ''.join([arg.code for arg in self.__args])", "return ''.join(arg.code for arg in self.__args)")]),
    ('t-tu-fmt', None, [(TU, "return self.code + '(' + ', '.join([arg.flatten(with_decorators) for arg in self.__args]) + ')'", "return '%s(%s)' % (self.code, ', '.join([arg.flatten(with_decorators) for arg in self.__args]))")]),
    ('t-tu-any', None, [(TU, "return any([arg.code == arg_code for arg in self.__args])", "return arg_code in [arg.code for arg in self.__args]")]),
    ('t-tu-yield', None, [(TU, "        return iter(self.__args)", "        yield from self.__args")]),
    # language model
    ('t-lm-fmt', None, [(LM, "('%d_grams.txt' % order)", "'{}_grams.txt'.format(order)")]),
    ('t-lm-start', None, [(LM, "        for idx, min_count in enumerate(min_counts):\n            order = idx + 1\n", "        for order, min_count in enumerate(min_counts, 1):\n")]),
    ('t-lm-get', None, [(LM, "        if not any([ngram in self.__ngrams_details for ngram in ngrams]):", "        if all([ngram not in self.__ngrams_details for ngram in ngrams]):")]),
    ('t-lm-max', None, [(LM, "        token_logp_tuples = [(ngram, self.__logp(ngram)) for ngram in ngrams]\n        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)\n        return token_logp_tuples[0][0]", "        return max(ngrams, key=self.__logp)")]),
    ('t-lm-max2', None, [(LM, "        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)\n        return token_logp_tuples[0][0]", "        return max(token_logp_tuples, key=lambda x: x[1])[0]")]),
    ('t-lm-keys', None, [(LM, "max(tprobas.keys())", "max(tprobas)")]),
    ('t-lm-min', None, [(LM, "        if min_count < 1:\n            return False\n        return self.__ngrams_details.get(ngram, self.__unk)[0] >= min_count", "        return min_count >= 1 and self.__ngrams_details.get(ngram, self.__unk)[0] >= min_count")]),
    ('t-lm-vals', None, [(LM, "for ngram, next_tokens in self.__next_tokens.items():", "for next_tokens in self.__next_tokens.values():")]),
    ('t-lm-ge', None, [(LM, "                if len(tokens) > 1:", "                if len(tokens) >= 2:")]),
    ('t-lm-neg', None, [(LM, "sorted_ngrams = sorted(ngrams, key=lambda x: x[2], reverse=True)", "sorted_ngrams = sorted(ngrams, key=lambda x: -x[2])")]),
    ('t-lm-in', None, [(LM, "            try:\n                return self.__next_tokens[' '.join(tokens[-i:])][:limit]\n            except KeyError:\n                continue", "            context = ' '.join(tokens[-i:])\n            if context in self.__next_tokens:\n                return self.__next_tokens[context][:limit]")]),
    # builder
    ('t-lb-fmt', None, [(LB, "filepath = self.__folder_path + '/' + ('%d_grams.txt' % order)", "filepath = '%s/%d_grams.txt' % (self.__folder_path, order)")]),
    ('t-lb-path', None, [(LB, "filepath = self.__folder_path + '/' + ('%d_grams.txt' % order)", "filepath = self.__folder_path + '/%d_grams.txt' % order")]),
    ('t-lb-pos', None, [(LB, "                if ngram.proba > 0.0:", "                if ngram.proba > 0:")]),
    ('t-lb-smooth', None, [(LB, "        if smoothing == 'modified_kneser_ney':\n            self.__smoother = MKNSmoother\n        else:\n            self.__smoother = MLESmoother", "        self.__smoother = MKNSmoother if smoothing == 'modified_kneser_ney' else MLESmoother")]),
    # ngram
    ('t-ng-str', None, [(NG, "    def __repr__(self):\n        return ' '.join(self.tokens)", "    def __repr__(self):\n        return str(self)")]),
    ('t-ng-wc', None, [(NG, "return ' '.join([self.without_last_token, '•'])", "return self.without_last_token + ' •'")]),
    ('t-ng-wc2', None, [(NG, "        wc_last_token = self.wc_last_token\n        return ' '.join(['•', wc_last_token])", "        return '• %s' % self.wc_last_token")]),
    ('t-ng-pre', None, [(NG, "return ' '.join(['•', self.text])", "return '• ' + self.text")]),
    # token context, extraction
    ('t-tc-max', None, [(TC, "tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]", "tokens_before = self.__tokens_before[-exploring_range:]")]),
    ('t-tc-sl', None, [(TC, "return iter(zip(*[items[i:] for i in range(window_size)]))", "return zip(*[items[i:] for i in range(window_size)])")]),
    ('t-tc-star', None, [(TC, "tokens = tokens_before + [self.token] + tokens_after", "tokens = [*tokens_before, self.token, *tokens_after]")]),
    ('t-ne-or', None, [(NE, "    if any([not has_only_letters(token), starts_with_uppercase_letter(token)]):\n        return False\n    return True", "    return has_only_letters(token) and not starts_with_uppercase_letter(token)")]),
    ('t-ne-zip', None, [(NE, "ngrams_tokens = [ngram_tokens for ngram_tokens in zip(*[token_list[i:] for i in range(order)])]", "ngrams_tokens = list(zip(*[token_list[i:] for i in range(order)]))")]),
    ('t-ne-lower', None, [(NE, "        filtered_ngrams = [' '.join(ngram_tokens) for ngram_tokens in ngrams_tokens if _valid_tokens(ngram_tokens)]\n        ngrams.extend([ngram.lower() for ngram in filtered_ngrams])", "        ngrams.extend([' '.join(ngram_tokens).lower() for ngram_tokens in ngrams_tokens if _valid_tokens(ngram_tokens)])")]),
    ('t-ne-map', None, [(NE, "return all([_valid_ngram_token(token) for token in tokens])", "return all(map(_valid_ngram_token, tokens))")]),
    ('t-ns-try', None, [(NS, "        if text in self.__store:\n            ngram = self.__store[text]\n            ngram.count += 1\n            return ngram\n        ngram = Ngram(text)\n        self.__store[text] = ngram\n        return ngram", "        if text in self.__store:\n            self.__store[text].count += 1\n        else:\n            self.__store[text] = Ngram(text)\n        return self.__store[text]")]),
    # smoothers
    ('t-sm-cat', None, [(SM, "    np_probas = data_slices[0].np_probas\n    for data_slice in data_slices[1:]:\n        np_probas = np.concatenate((np_probas, data_slice.np_probas))\n    return np_probas", "    return np.concatenate([data_slice.np_probas for data_slice in data_slices])")]),
    ('t-sm-zip', None, [(SM, "return [range(marks[i], marks[i + 1]) for i in range(self._nb_processes)]", "return [range(start, end) for start, end in zip(marks, marks[1:])]")]),
    ('t-ml-ngr', None, [(ML, "self._process_ranges(len(self._ngrams.get(order, [])))", "self._process_ranges(len(ngrams))")]),
    ('t-ml-zip', None, [(ML, "            for idx, proba in enumerate(np_probas):\n                self._ngrams[order][idx].proba = proba", "            for idx, proba in enumerate(np_probas):\n                ngrams[idx].proba = proba")]),
    ('t-mk-any', None, [(MK, "if any([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):", "if 0 in (n1[order], n2[order], n3[order], n4[order]):")]),
    ('t-mk-all', None, [(MK, "if any([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):", "if not all([n1[order], n2[order], n3[order], n4[order]]):")]),
    ('t-mk-fmt', None, [(MK, "wc = '%s %s' % (' '.join(ngram.tokens[:-1]), '•')", "wc = ngram.wc_last_token")]),
    ('t-mk-comp', None, [(MK, "        for lm_ngram in [ngram for i in lm_ngrams for ngram in lm_ngrams[i]]:\n            self.__ngrams_lookup[lm_ngram.text] = lm_ngram", "        for order_ngrams in lm_ngrams.values():\n            for lm_ngram in order_ngrams:\n                self.__ngrams_lookup[lm_ngram.text] = lm_ngram")]),
    ('t-mk-zero', None, [(MK, "np.maximum(np_l_counts - np_discounts, np_zero)", "np.maximum(np_l_counts - np_discounts, 0.0)")]),
    ('t-mk-order', None, [(MK, "            last_wc_order = order\n        n1 =", "            last_wc_order = start_order - (start_order - order)\n        n1 =")]),
    # pipeline
    ('t-pi-len', None, [(PI, "if len(tokens) > cfg.MAX_SENT_LENGTH:", "if not len(tokens) <= cfg.MAX_SENT_LENGTH:")]),
    ('t-pi-range', None, [(PI, "            new_total = total_sents + len(token_lists)\n            sent_ranges.append((total_sents, new_total))\n            total_sents = new_total", "            sent_ranges.append((total_sents, total_sents + len(token_lists)))\n            total_sents += len(token_lists)")]),
    ('t-pi-chain', None, [(PI, "tokens = [token_lists for group in tokens for token_lists in group]", "tokens = list(itertools.chain.from_iterable(tokens))")]),
    ('t-pi-chain2', None, [(PI, "tokens = [token_lists for group in tokens for token_lists in group]", "tokens = list(itertools.chain(*tokens))")]),
    ('t-pi-contains', None, [(PI, "lambda x: x in self.__splitters", "self.__splitters.__contains__")]),
    ('t-pi-islist', None, [(PI, "                new_token_lists.append(tokens)", "                new_token_lists += [tokens]")]),
    ('t-lp-len', None, [(LP, "        if len(sent_results):\n            node_dicts, stuples = zip(*sent_results)\n        else:\n            return [], []\n        return node_dicts, stuples", "        if not sent_results:\n            return [], []\n        node_dicts, stuples = zip(*sent_results)\n        return node_dicts, stuples")]),
    ('t-lp-packs', None, [(LP, "sent_packs = list(zip(token_lists, tags, idx_trees, [chunk_common_nouns] * len(token_lists)))", "sent_packs = [(tokens, sent_tags, tree, chunk_common_nouns) for tokens, sent_tags, tree in zip(token_lists, tags, idx_trees)]")]),
    ('t-lp-nodes', None, [(LP, "        self.__find_arg(node_dict.values(), node_tree)\n        stuples = self._extract_stuples(node_dict.values())", "        nodes = list(node_dict.values())\n        self.__find_arg(nodes, node_tree)\n        stuples = self._extract_stuples(nodes)")]),
    ('t-do-chain', None, [(DO, "        return [stuple for sent in self.sentences for stuple in sent.stuples]", "        stuples = []\n        for sent in self.sentences:\n            stuples.extend(sent.stuples)\n        return stuples")]),
    ('t-do-iter', None, [(DO, "        return [stuple for sent in self.sentences for stuple in sent.stuples]", "        return [stuple for sent in self for stuple in sent]")]),
    # charset, wordset, training samples
    ('t-cs-get', None, [(CS, "        try:\n            return self.__char_code[char]\n        except KeyError:\n            return self.__unk_code", "        return self.__char_code.get(char, self.__unk_code)")]),
    ('t-ws-in', None, [(WS, "        try:\n            return self.__word_vector[word.lower()]\n        except KeyError:\n            return self.__zero_vector", "        word = word.lower()\n        if word in self.__word_vector:\n            return self.__word_vector[word]\n        return self.__zero_vector")]),
    ('t-ws-star', None, [(WS, "                values = line.split()\n                word = values[0]\n                wordvec = values[1:]\n", "                word, *wordvec = line.split()\n")]),
    ('t-cs-union', None, [(CS, "chars = LETTERS | UPPERCASE_LETTERS | DIGITS | special_chars | padding_chars", "chars = LETTERS.union(UPPERCASE_LETTERS, DIGITS, special_chars, padding_chars)")]),
    ('t-dp-len', None, [(DP, "NB_DEPS = len([dep for dep in Dep])", "NB_DEPS = len(Dep)")]),
    ('t-dp-union', None, [(DP, "VERB_CHILD_DEPS = VERB_ARG_DEPS | {Dep.AUX, Dep.MODAL}", "VERB_CHILD_DEPS = VERB_ARG_DEPS.union({Dep.AUX, Dep.MODAL})")]),
]
