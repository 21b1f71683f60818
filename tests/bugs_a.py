X = 'semantics/semantic_tuple_extractor.py'
AF = 'syntax/arg_finder.py'
ND = 'syntax/nodifier.py'
PI = 'pipeline/pipeline.py'
LP = 'pipeline/logic_pipeline.py'
E = [
    # pipeline
    ('pi-range', 'C01', [(PI, 'total_sents = new_total', 'total_sents = new_total or total_sents + 1')]),
    ('pi-skipempty', 'C01', [(PI, '        for start, end in sent_ranges:\n', '        for start, end in sent_ranges:\n            if start == end:\n                continue\n')]),
    ('pi-skipnostup', 'C01', [(PI, '                sentence = Sentence()\n', '                if not stuple_list:\n                    continue\n                sentence = Sentence()\n')]),
    ('pi-endoff', 'C01', [(PI, 'stuple_lists[start:end]', 'stuple_lists[start:end or 1]')]),
    ('pi-lt', 'C05', [(PI, 'for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]', 'for tokens in new_token_lists if len(tokens) < cfg.MAX_SENT_LENGTH]')]),
    ('pi-ge', 'C05', [(PI, 'if len(tokens) > cfg.MAX_SENT_LENGTH:', 'if len(tokens) >= cfg.MAX_SENT_LENGTH:')]),
    ('pi-spl', 'C05', [(PI, "'[', ']', '{', '}', '-'}", "'[', ']', '{', '}'}")]),
    ('pi-nofilter', 'C05', [(PI, 'return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]', 'return new_token_lists')]),
    ('pi-trunc', 'C05', [(PI, 'return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]', 'return [tokens[:cfg.MAX_SENT_LENGTH] for tokens in new_token_lists]')]),
    ('pi-chunk', 'C33', [(LP, 'if chunk_common_nouns:', 'if chunk_common_nouns and len(node_dict) > 2:')]),
    ('lp-order', 'C33', [(LP, '''        for node in node_dict.values():
            self.__fix(node, node_tree)
        if chunk_common_nouns:
            self.__chunk(node_dict.values(), node_tree)
''', '''        if chunk_common_nouns:
            self.__chunk(node_dict.values(), node_tree)
        for node in node_dict.values():
            self.__fix(node, node_tree)
''')]),
    ('lp-merge', 'C33', [(LP, '''            node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)
        for node in node_dict.values():
            self.__fix(node, node_tree)
''', '''            node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)
            self.__fix(node, node_tree)
''')]),
    ('lp-swapadjs', 'C33', [(LP, 'Fixer(adjs, nouns)', 'Fixer(nouns, adjs)')]),
    ('lp-orig', 'C33', [(LP, 'node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)', 'node.lemma, node.suffix = self.__lemmatize(node.original.lower(), node.tag)')]),
    ('lp-ppslist', 'C33', [(LP, 'reversed_pps = reverse_dict(pps)', 'reversed_pps = reverse_dict(preterits)')]),
    # threads
    ('mt-nojoin', 'C02', [('utils/multithreading.py', '        nb_threads[idx].join()\n', '        nb_threads[idx].join(60)\n')]),
    ('mt-divide', 'C02', [('utils/mutables.py', 'if nb_lists <= len_list:', 'if nb_lists < len_list:')]),
    ('mt-divide2', 'C02', [('utils/mutables.py', 'num=nb_lists + 1)', 'num=nb_lists + 1)[:-1]')]),
    ('mt-divide3', 'C02', [('utils/mutables.py', 'result.append(items[int(ranges[i]):int(ranges[i + 1])])', 'result.append(items[int(ranges[i]):int(ranges[i + 1] + 0.5)])')]),
    ('mt-batch', 'C02', [('utils/mutables.py', 'range(0, len(items), nb_items_per_batch)', 'range(0, len(items) - 1, nb_items_per_batch)')]),
    ('sm-range', 'C02', [('langmodel/smoother.py', 'range(marks[i], marks[i + 1])', 'range(marks[i], marks[i + 1] - 1)')]),
    ('sm-concat', 'C02', [('langmodel/smoother.py', 'np.concatenate((np_probas, data_slice.np_probas))', 'np.concatenate((data_slice.np_probas, np_probas))')]),
    ('mt-swallow', 'C03', [('utils/multithreading.py', 'except BaseException as error:', 'except Exception as error:')]),
    # extractor
    ('ex-pol1', 'C06', [(X, 'is_aff = _polarity(subj_1, verb, subj_2, obj_1, obj_2)', 'is_aff = _polarity(subj_1, verb, subj_2, obj_2)')]),
    ('ex-pol2', 'C06', [(X, 'is_aff = xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)', 'is_aff = xnor(all([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)')]),
    ('ex-pol3', 'C06', [(X, 'copula_arg = Argument(\'be\', ArgCode.COP.value, xnor(adj.is_aff, noun.is_aff))', 'copula_arg = Argument(\'be\', ArgCode.COP.value, adj.is_aff)')]),
    ('ex-pol4', 'C06', [('utils/maths.py', '    for b in bools[2:]:', '    for b in bools[2:3]:')]),
    ('ex-pol5', 'C06', [(X, 'xnor(subj.is_aff, verb.is_aff, iobj.is_aff))', 'xnor(subj.is_aff, verb.is_aff) and iobj.is_aff)')]),
    ('ex-pol6', 'C06', [(X, "            if subj is None:\n                is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)\n            else:\n                is_aff = xnor(subj.is_aff, verb.is_aff, noun.is_aff, iprop.is_aff)", "            is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)")]),
    ('ex-code1', 'C07', [(X, "    if noun.tag == Tag.SYM:\n        return ArgCode.SYM.value\n", "")]),
    ('ex-code2', 'C07', [(X, "verb_arg = Argument(verb.canon, ArgCode.REC.value", "verb_arg = Argument(verb.canon, ArgCode.TRANS.value")]),
    ('ex-code3', 'C07', [(X, "                        obj_1_arg = Argument(obj_1.canon, ArgCode.COP.value)", "                        obj_1_arg = Argument(obj_1.canon, ArgCode.TRANS.value)")]),
    ('ex-code4', 'C07', [(X, "    if prop.tag == Tag.ADJ:\n        return _adj_arg_code(prop)", "    if prop.tag == Tag.ADJ:\n        return ArgCode.ADJ.value")]),
    ('ex-word1', 'C08', [(X, "iprop_arg = Argument(iprop.canon,", "iprop_arg = Argument(iprop.lemma,")]),
    ('ex-word2', 'C08', [(X, "copula_arg = Argument(' '.join(['be', pp.canon]),", "copula_arg = Argument(' '.join(['be', pp.lemma]),")]),
    ('ex-word3', 'C08', [(X, "                pp = self.__inflector.past_participle(verb.lemma)\n                if verb.particles:\n                    pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)", "                pp = self.__inflector.past_participle(verb.lemma)\n                if verb.particles:\n                    pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles[:1])")]),
    ('ex-word4', 'C08', [(X, "stuples.append(SemanticTuple(subj_1_arg, verb_arg, subj_2_arg, obj_1_arg, obj_2_arg))", "stuples.append(SemanticTuple(subj_1_arg, verb_arg, obj_2_arg, obj_1_arg, subj_2_arg))")]),
    ('ex-blk', 'C09', [(X, "                blocked_for_next_round.add(obj_1)\n", "                if obj_1.objs:\n                    blocked_for_next_round.add(obj_1)\n")]),
    ('ex-blk2', 'C09', [(X, "        for node in [n for n in nodes if n not in blocked_for_round_2]:", "        for node in nodes:")]),
    ('ex-have', 'C09', [(X, "__not_passive = {'have', 'get'}", "__not_passive = {'have'}")]),
    ('ex-intr', 'C09', [(X, "        if not verb.objs and verb.canon not in self.__not_intransitive:", "        if not verb.objs and verb.lemma not in self.__not_intransitive:")]),
    ('ex-inf', 'C09', [(X, "            if node.tag == Tag.VERB and not node.cannot_be_transitive:\n                stuples.extend(self.__make_stuples_from_objs(node))", "            if node.tag == Tag.VERB and not any([node.is_inf_to, node.cannot_be_transitive]):\n                stuples.extend(self.__make_stuples_from_objs(node))")]),
    ('ex-propt', 'C09', [(X, "for copula, prop in [(c, p) for c, p in noun.copulas_props if p.tag in PROP_TAGS]:", "for copula, prop in [(c, p) for c, p in noun.copulas_props]:")]),
    ('ex-brk', 'C09', [(X, "                stuples.append(SemanticTuple(subj_arg, verb_arg, iobj_arg))\n", "                stuples.append(SemanticTuple(subj_arg, verb_arg, iobj_arg))\n                break\n")]),
    ('ex-exists', 'C09', [('syntax/node.py', "return any([self.props, self.iprops, self.exists])", "return any([self.props, self.iprops])")]),
    ('ex-elif', 'C09', [(X, "                        for obj_2 in [o for o in obj_1.objs if o.tag in NOUN_TAGS]:", "                        for obj_2 in [o for o in obj_1.objs[:1] if o.tag in NOUN_TAGS]:")]),
    ('ex-agent', 'C09', [(X, "for agent in [a for a in prop.agents if a.tag in NOUN_TAGS]:", "for agent in [a for a in prop.agents if a.tag == Tag.NOUN]:")]),
    # arg finder
    ('af-or', 'C10', [('syntax/node.py', "return [self] + self.and_cconjs + self.or_cconjs", "return [self] + (self.and_cconjs or self.or_cconjs)")]),
    ('af-mark', 'C10', [(AF, "for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS)]", "for p in prop.aggreg]")]),
    ('af-by', 'C10', [(AF, "if dep in {Dep.PROP, Dep.CPL}:", "if dep in {Dep.PROP, Dep.IPROP, Dep.CPL}:")]),
    ('af-ip', 'C10', [(AF, "o.subjs_verbs_iprops.append((subj, verb, ip))", "o.subjs_verbs_iprops.append((subj, verb, iprop))")]),
    ('af-cmark', 'C10', [(AF, "if cmark is not None and parent.tag == Tag.ADJ and node.tag in NOUN_TAGS:", "if cmark is not None and parent.tag == Tag.ADJ and node.tag in NOUN_TAGS and mark is None:")]),
    ('af-iobj', 'C10', [(AF, "verb.iobjs.extend(iobj.aggreg)", "verb.iobjs.append(iobj)")]),
    ('af-past', 'C10', [(AF, "if prop is not None and node.suffix == Suffix.PAST:", "if prop is not None:")]),
    ('af-rel', 'C11', [(AF, "__relative_pronouns = {'that', 'which', 'who'}", "__relative_pronouns = {'that', 'which', 'who', 'what'}")]),
    ('af-refl', 'C11', [(AF, "ref = self.__resolve_relative_pron(parent, node, tree) or \\\n                          self.__resolve_obj_reflexive_pron(parent, node, tree)", "ref = self.__resolve_relative_pron(parent, node, tree) or \\\n                          self.__resolve_subj_reflexive_pron(parent, node, tree)")]),
    ('af-subjc', 'C11', [(AF, "if not tree.has_child_via(v, Dep.SUBJ):\n            verbs", "if not tree.children(v):\n            verbs")]),
    ('af-objagg', 'C11', [(AF, "v.objs.extend(obj.aggreg)", "v.objs.extend([obj] + obj.and_cconjs)")]),
    ('af-long', 'C11', [(AF, "if subj and subj.canon not in self.__relative_pronouns:", "if subj:")]),
    ('af-long2', 'C11', [(AF, "elif all([node in naked_cpls, parent.tag in NOUN_TAGS, not tree.has_child_via(node, Dep.OBJ)]):", "elif all([node in naked_cpls, parent.tag in NOUN_TAGS]):")]),
    ('af-long3', 'C11', [(AF, "if not any([mark, imark, cmark]):", "if not any([mark, cmark]):")]),
    ('af-neg', 'C12', [(AF, "                if dep == Dep.NEG:\n                    node.is_aff = False\n", "                if dep == Dep.NEG:\n                    node.is_aff = False\n                if dep == Dep.MODAL:\n                    node.is_aff = True\n")]),
    ('af-neg2', 'C12', [(AF, "                if dep == Dep.NEG:\n                    node.is_aff = False\n", "                node.is_aff = dep != Dep.NEG\n")]),
    ('af-neg3', 'C12', [(AF, "                if dep == Dep.NEG:\n                    node.is_aff = False\n", "                if dep == Dep.NEG:\n                    node.is_aff = not node.is_aff\n")]),
]
