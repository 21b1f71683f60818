X = 'semantics/semantic_tuple_extractor.py'
AF = 'syntax/arg_finder.py'
ND = 'syntax/nodifier.py'
PI = 'pipeline/pipeline.py'
LP = 'pipeline/logic_pipeline.py'
TR = 'utils/tree.py'
E = [
    # ---- pipeline
    ('r-pi-accumulate', None, [(PI, '''        sent_ranges = []
        total_sents = 0
        for token_lists in tokens:
            new_total = total_sents + len(token_lists)
            sent_ranges.append((total_sents, new_total))
            total_sents = new_total
''', '''        sent_ranges = []
        start = 0
        for token_lists in tokens:
            end = start + len(token_lists)
            sent_ranges.append((start, end))
            start = end
''')]),
    ('r-pi-doc-helper', None, [(PI, '''        docs = []
        for start, end in sent_ranges:
            doc = Document()
            for stuple_list in stuple_lists[start:end]:
                sentence = Sentence()
                sentence.stuples = stuple_list
                doc.sentences.append(sentence)
            docs.append(doc)
        return docs
''', '''        return [self.__make_document(stuple_lists[start:end]) for start, end in sent_ranges]

    @staticmethod
    def __make_document(stuple_lists):
        doc = Document()
        for stuple_list in stuple_lists:
            sentence = Sentence()
            sentence.stuples = stuple_list
            doc.sentences.append(sentence)
        return doc
''')]),
    ('r-pi-flatten', None, [(PI, "tokens = [token_lists for group in tokens for token_lists in group]", "tokens = list(itertools.chain.from_iterable(tokens))")]),
    ('r-pi-flatten2', None, [(PI, "        tokens = [token_lists for group in tokens for token_lists in group]\n", "        flat = []\n        for group in tokens:\n            flat.extend(group)\n        tokens = flat\n")]),
    ('r-pi-split-loop', None, [(PI, '''        # Remove sentences that are still too long
        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]
''', '''        # Remove sentences that are still too long
        kept = []
        for tokens in new_token_lists:
            if len(tokens) > cfg.MAX_SENT_LENGTH:
                continue
            kept.append(tokens)
        return kept
''')]),
    ('r-pi-split-invert', None, [(PI, '''            if len(tokens) > cfg.MAX_SENT_LENGTH:
                new_token_lists.extend(
                    [list(group) for b, group in itertools.groupby(tokens, lambda x: x in self.__splitters) if not b])
            else:
                new_token_lists.append(tokens)
''', '''            if len(tokens) <= cfg.MAX_SENT_LENGTH:
                new_token_lists.append(tokens)
                continue
            for is_splitter, group in itertools.groupby(tokens, key=lambda token: token in self.__splitters):
                if not is_splitter:
                    new_token_lists.append(list(group))
''')]),
    ('r-pi-split-merge', None, [(PI, '''            if len(tokens) > cfg.MAX_SENT_LENGTH:
                new_token_lists.extend(
                    [list(group) for b, group in itertools.groupby(tokens, lambda x: x in self.__splitters) if not b])
            else:
                new_token_lists.append(tokens)
        # Remove sentences that are still too long
        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]
''', '''            if len(tokens) > cfg.MAX_SENT_LENGTH:
                pieces = [list(group) for b, group in itertools.groupby(tokens, lambda x: x in self.__splitters) if not b]
            else:
                pieces = [tokens]
            # Remove pieces that are still too long
            new_token_lists.extend([piece for piece in pieces if len(piece) <= cfg.MAX_SENT_LENGTH])
        return new_token_lists
''')]),
    ('r-pi-gpu', None, [(PI, '''        if self.__use_gpu:
            _, _, _, stuple_lists = self.__process_tokens(tokens, chunk_common_nouns)
        else:
            with tf.device('/CPU:0'):
                _, _, _, stuple_lists = self.__process_tokens(tokens, chunk_common_nouns)
''', '''        if not self.__use_gpu:
            with tf.device('/CPU:0'):
                results = self.__process_tokens(tokens, chunk_common_nouns)
        else:
            results = self.__process_tokens(tokens, chunk_common_nouns)
        stuple_lists = results[3]
''')]),
    ('r-lp-noresults', None, [(LP, '''        if len(sent_results):
            node_dicts, stuples = zip(*sent_results)
        else:
            return [], []
        return node_dicts, stuples
''', '''        if not sent_results:
            return [], []
        node_dicts, stuples = zip(*sent_results)
        return node_dicts, stuples
''')]),
    ('r-lp-zip', None, [(LP, '''        sent_packs = list(zip(token_lists, tags, idx_trees, [chunk_common_nouns] * len(token_lists)))
''', '''        sent_packs = [(tokens, sent_tags, idx_tree, chunk_common_nouns)
                      for tokens, sent_tags, idx_tree in zip(token_lists, tags, idx_trees)]
''')]),
    ('r-lp-nodes', None, [(LP, '''        for node in node_dict.values():
            node.standard = self.__standardize(node.standard)
            node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)
        for node in node_dict.values():
            self.__fix(node, node_tree)
        if chunk_common_nouns:
            self.__chunk(node_dict.values(), node_tree)
        for node in node_dict.values():
            self.__canonicalize(node)
        self.__find_arg(node_dict.values(), node_tree)
        stuples = self._extract_stuples(node_dict.values())
        return node_dict, stuples
''', '''        nodes = node_dict.values()
        self.__normalize(nodes)
        for node in nodes:
            self.__fix(node, node_tree)
        if chunk_common_nouns:
            self.__chunk(nodes, node_tree)
        for node in nodes:
            self.__canonicalize(node)
        self.__find_arg(nodes, node_tree)
        return node_dict, self._extract_stuples(nodes)

    def __normalize(self, nodes):
        for node in nodes:
            standard = self.__standardize(node.standard)
            lemma, suffix = self.__lemmatize(standard, node.tag)
            node.standard = standard
            node.lemma = lemma
            node.suffix = suffix
''')]),
    ('r-lp-split2', None, [(LP, '''            node.standard = self.__standardize(node.standard)
            node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)
''', '''            node.standard = self.__standardize(node.standard)
        for node in node_dict.values():
            node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)
''')]),
    ('r-doc-stuples', None, [('pipeline/document.py', "        return [stuple for sent in self.sentences for stuple in sent.stuples]", "        stuples = []\n        for sentence in self.sentences:\n            stuples.extend(sentence.stuples)\n        return stuples")]),
    # ---- utils
    ('r-mt-for', None, [('utils/multithreading.py', '''    items_lists = divide_list(items, nb_threads)
    nb_threads = []
    output_items = []
    for idx, items_list in enumerate(items_lists):
        nb_threads.append(_Thread(idx, items_list, process))
        nb_threads[idx].start()
    for idx, _ in enumerate(items_lists):
        nb_threads[idx].join()
        output_items.extend(nb_threads[idx].output_items)
    for thread in nb_threads:
        if thread.error is not None:
            raise thread.error
    return output_items
''', '''    threads = [_Thread(idx, items_list, process) for idx, items_list in enumerate(divide_list(items, nb_threads))]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    for thread in threads:
        if thread.error is not None:
            raise thread.error
    output_items = []
    for thread in threads:
        output_items.extend(thread.output_items)
    return output_items
''')]),
    ('r-mt-run', None, [('utils/multithreading.py', '''            self.output_items = [self.__process(item) for item in self.__input_items]
''', '''            for item in self.__input_items:
                self.output_items.append(self.__process(item))
''')]),
    ('r-div-comp', None, [('utils/mutables.py', '''    if nb_lists <= len_list:
        result = []
        ranges = np.linspace(0, len_list, num=nb_lists + 1)
        for i in range(len(ranges) - 1):
            result.append(items[int(ranges[i]):int(ranges[i + 1])])
    else:
        return [[full_list] for full_list in items]
    return result
''', '''    if nb_lists > len_list:
        return [[item] for item in items]
    bounds = np.linspace(0, len_list, num=nb_lists + 1)
    return [items[int(bounds[i]):int(bounds[i + 1])] for i in range(nb_lists)]
''')]),
    ('r-div-zip', None, [('utils/mutables.py', '''        result = []
        ranges = np.linspace(0, len_list, num=nb_lists + 1)
        for i in range(len(ranges) - 1):
            result.append(items[int(ranges[i]):int(ranges[i + 1])])
''', '''        marks = [int(mark) for mark in np.linspace(0, len_list, num=nb_lists + 1)]
        result = [items[start:end] for start, end in zip(marks, marks[1:])]
''')]),
    ('r-batch-loop', None, [('utils/mutables.py', "    return [items[i:i + nb_items_per_batch] for i in range(0, len(items), nb_items_per_batch)]", "    batches = []\n    for start in range(0, len(items), nb_items_per_batch):\n        batches.append(items[start:start + nb_items_per_batch])\n    return batches")]),
    ('r-append-setdefault', None, [('utils/mutables.py', '''    """Appends an item to a list in a dictionary"""
    if key in dic:
        dic[key].append(item)
    else:
        dic[key] = [item]
''', '''    """Appends an item to a list in a dictionary"""
    dic.setdefault(key, []).append(item)
''')]),
    ('r-append-notin', None, [('utils/mutables.py', '''    """Appends an item to a list in a dictionary"""
    if key in dic:
        dic[key].append(item)
    else:
        dic[key] = [item]
''', '''    """Appends an item to a list in a dictionary"""
    if key not in dic:
        dic[key] = []
    dic[key].append(item)
''')]),
    ('r-appenddd', None, [('utils/mutables.py', '''    if key1 in dic:
        if key2 in dic[key1]:
            dic[key1][key2].append(item)
        else:
            dic[key1][key2] = [item]
    else:
        dic[key1] = {key2: [item]}
''', '''    if key1 not in dic:
        dic[key1] = {}
    append_to_dict_list(dic[key1], key2, item)
''')]),
    ('r-appenddd2', None, [('utils/mutables.py', '''    if key1 in dic:
        if key2 in dic[key1]:
            dic[key1][key2].append(item)
        else:
            dic[key1][key2] = [item]
    else:
        dic[key1] = {key2: [item]}
''', '''    dic.setdefault(key1, {}).setdefault(key2, []).append(item)
''')]),
    ('r-revdict', None, [('utils/mutables.py', "    return {v: k for k, v in dic.items()}", "    reversed_dic = {}\n    for key, value in dic.items():\n        reversed_dic[value] = key\n    return reversed_dic")]),
    ('r-xnor', None, [('utils/maths.py', '''    result = bools[0] == bools[1]
    for b in bools[2:]:
        result = result == b
    return result''', '''    result = bools[0]
    for b in bools[1:]:
        result = result == b
    return result''')]),
    ('r-xnor2', None, [('utils/maths.py', '''    result = bools[0] == bools[1]
    for b in bools[2:]:
        result = result == b
    return result''', '''    first, second, *others = bools
    result = first == second
    for other in others:
        result = (result == other)
    return result''')]),
    ('r-files-path', None, [('utils/files.py', '''    path = cfg.DATA_DIR
    for arg in args:
        path /= arg
    return str(path)''', '''    path = cfg.DATA_DIR
    for arg in args:
        path = path / arg
    return str(path)''')]),
    ('r-files-joinpath', None, [('utils/files.py', '''    path = cfg.DATA_DIR
    for arg in args:
        path /= arg
    return str(path)''', '''    return str(cfg.DATA_DIR.joinpath(*args))''')]),
    ('r-files-dict', None, [('utils/files.py', '''        return {key: value for key, value in [line.strip().split('\\t') for line in txt_file]}''', '''        result = {}
        for line in txt_file:
            key, value = line.strip().split('\\t')
            result[key] = value
        return result''')]),
    ('r-files-set', None, [('utils/files.py', '''        return {line.strip() for line in txt_file}''', '''        words = set()
        for line in txt_file:
            words.add(line.strip())
    return words''')]),
    # ---- tree
    ('r-tree-get', None, [(TR, '''        try:
            return self.__parents[node]
        except KeyError:
            return None
''', '''        return self.__parents.get(node)
''')]),
    ('r-tree-haspar', None, [(TR, '''        try:
            return self.__parents[node][0] == label
        except KeyError:
            return False
''', '''        label_parent = self.parent(node)
        return label_parent is not None and label_parent[0] == label
''')]),
    ('r-tree-haspar2', None, [(TR, '''        try:
            return self.__parents[node][0] in labels
        except KeyError:
            return False
''', '''        if node not in self.__parents:
            return False
        return self.__parents[node][0] in labels
''')]),
    ('r-tree-children', None, [(TR, '''        try:
            return [(label, child) for label, children in self.__children[node].items() for child in children]
        except KeyError:
            return []
''', '''        result = []
        for label, children in self.__children.get(node, {}).items():
            for child in children:
                result.append((label, child))
        return result
''')]),
    ('r-tree-childvia', None, [(TR, '''        try:
            return self.__children[node][label][0]
        except KeyError:
            return None
''', '''        children = self.children_via(node, label)
        return children[0] if children else None
''')]),
    ('r-tree-childrenvia', None, [(TR, '''        try:
            return self.__children[node][label]
        except KeyError:
            return []
''', '''        return self.__children.get(node, {}).get(label, [])
''')]),
    ('r-tree-haschildset', None, [(TR, '''        try:
            return any([key in labels for key in self.__children[node]])
        except KeyError:
            return False
''', '''        for key in self.__children.get(node, {}):
            if key in labels:
                return True
        return False
''')]),
    ('r-tree-hasnode', None, [(TR, '''        return any([node in self.__children, node in self.__parents])''', '''        return node in self.__parents or node in self.__children''')]),
    ('r-tree-siblings', None, [(TR, '''            siblings = []
            for label, children in self.__children[parent].items():
                for child in children:
                    if child != node:
                        siblings.append((label, child))
            return siblings
''', '''            return [(label, child) for label, child in self.children(parent) if child != node]
''')]),
    ('r-tree-anc', None, [(TR, '''        anc_branch = []

        def _recurse_climb(_child):
            _label_node = self.parent(_child)
            if _label_node is not None:
                _parent_label, _parent_node = _label_node
                if _parent_label == label:
                    anc_branch.append(_parent_node)
                    _recurse_climb(_parent_node)

        _recurse_climb(node)
        anc_branch.reverse()
        return anc_branch
''', '''        anc_branch = []
        label_node = self.parent(node)
        while label_node is not None and label_node[0] == label:
            anc_branch.append(label_node[1])
            label_node = self.parent(label_node[1])
        anc_branch.reverse()
        return anc_branch
''')]),
    ('r-tree-len', None, [(TR, "return 1 + len(self.__parents.keys())", "return len(self.__parents) + 1")]),
    ('r-tree-nodes', None, [(TR, "return [self.root] + list(self.__parents.keys())", "return [self.root, *self.__parents]")]),
    ('r-tree-iter', None, [(TR, "        return iter([(label, parent, child) for child, (label, parent) in self.__parents.items()])", "        arcs = []\n        for child, (label, parent) in self.__parents.items():\n            arcs.append((label, parent, child))\n        return iter(arcs)")]),
    ('r-tree-desc', None, [(TR, '''            try:
                _label_children = self.__children[_parent]
                for _child in _label_children[label]:
                    nodes.append(_child)
                    _recurse_add_descendants(_child)
            except KeyError:
                return
''', '''            for _child in self.children_via(_parent, label):
                nodes.append(_child)
                _recurse_add_descendants(_child)
''')]),
    # ---- syntax
    ('r-node-props', None, [('syntax/node.py', "        return [self] + self.and_cconjs + self.or_cconjs", "        return [self] + self.cconjs")]),
    ('r-node-any', None, [('syntax/node.py', "        return any([self.props, self.iprops, self.exists])", "        return bool(self.props or self.iprops or self.exists)")]),
    ('r-af-register', None, [(AF, '''    verbs = [verb]
    for v in verb.cconjs:
        if not tree.has_child_via(v, Dep.SUBJ):
            verbs.append(v)
    for v in verbs:
        v.subjs.extend(subj.aggreg)
''', '''    verbs = [verb] + [v for v in verb.cconjs if not tree.has_child_via(v, Dep.SUBJ)]
    for v in verbs:
        v.subjs.extend(subj.aggreg)
''')]),
    ('r-af-register2', None, [(AF, '''    verbs = [verb]
    for v in verb.cconjs:
        if not tree.children(v):
            verbs.append(v)
    for v in verbs:
        v.objs.extend(obj.aggreg)
''', '''    verb.objs.extend(obj.aggreg)
    for v in verb.cconjs:
        if tree.children(v):
            continue
        v.objs.extend(obj.aggreg)
''')]),
    ('r-af-copula', None, [(AF, '''    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS)]:
        s.copulas_props.append((copula, p))
''', '''    props = [p for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS)]
    for s in subj.aggreg:
        for p in props:
            s.copulas_props.append((copula, p))
''')]),
    ('r-af-agents', None, [(AF, '''    for cpl in cpl.aggreg:
        if marker.canon == 'by':
            dep_parent = tree.parent(describee)
            if dep_parent is not None:
                dep, _ = dep_parent
                if dep in {Dep.PROP, Dep.CPL}:
                    describee.agents.append(cpl)
''', '''    if marker.canon != 'by':
        return
    dep_parent = tree.parent(describee)
    if dep_parent is None or dep_parent[0] not in (Dep.PROP, Dep.CPL):
        return
    describee.agents.extend(cpl.aggreg)
''')]),
    ('r-af-ref', None, [(AF, '''                    ref = self.__resolve_relative_pron(parent, node, tree) or \\
                          self.__resolve_subj_reflexive_pron(parent, node, tree)
                    if ref:
                        _register_subjs(parent, ref, tree)
                    else:
                        _register_subjs(parent, node, tree)
''', '''                    subj = self.__resolve_relative_pron(parent, node, tree) or \\
                           self.__resolve_subj_reflexive_pron(parent, node, tree) or node
                    _register_subjs(parent, subj, tree)
''')]),
    ('r-af-neg', None, [(AF, '''            for dep, child in tree.children(node):
                if dep == Dep.NEG:
                    node.is_aff = False
''', '''            if tree.has_child_via(node, Dep.NEG):
                node.is_aff = False
''')]),
    ('r-af-neg2', None, [(AF, '''            for dep, child in tree.children(node):
                if dep == Dep.NEG:
                    node.is_aff = False
''', '''            if any(dep == Dep.NEG for dep, _ in tree.children(node)):
                node.is_aff = False
''')]),
    ('r-af-marks', None, [(AF, '''                if not any([mark, imark, cmark]):
                    naked_cpls.add(node)
''', '''                if mark is None and imark is None and cmark is None:
                    naked_cpls.add(node)
''')]),
    ('r-af-long', None, [(AF, '''                if all([node in marked_cpls, node.tag == Tag.VERB, not tree.has_child_via(node, Dep.SUBJ),
                          parent.tag == Tag.VERB]):
''', '''                if node in marked_cpls and node.tag == Tag.VERB and parent.tag == Tag.VERB \\
                        and not tree.has_child_via(node, Dep.SUBJ):
''')]),
    ('r-af-longcont', None, [(AF, '''            dep_parent = tree.parent(node)
            if dep_parent is not None:
                dep, parent = dep_parent
                if all([node in marked_cpls, node.tag == Tag.VERB, not tree.has_child_via(node, Dep.SUBJ),
                          parent.tag == Tag.VERB]):
                    subj = tree.child_via(parent, Dep.SUBJ)
                    if subj:
                        # Subject to marked complement: e.g. "I ate but didn't drink"
                        _register_subjs(node, subj, tree)
                elif all([node in naked_cpls, parent.tag in NOUN_TAGS, not tree.has_child_via(node, Dep.OBJ)]):
                    subj = tree.child_via(node, Dep.SUBJ)
                    if subj and subj.canon not in self.__relative_pronouns:
                        # Object of complement verb: e.g. "the apple I ate"
                        _register_objs(node, parent, tree)
''', '''            dep_parent = tree.parent(node)
            if dep_parent is None:
                continue
            _, parent = dep_parent
            if all([node in marked_cpls, node.tag == Tag.VERB, not tree.has_child_via(node, Dep.SUBJ),
                    parent.tag == Tag.VERB]):
                subj = tree.child_via(parent, Dep.SUBJ)
                if subj:
                    # Subject to marked complement: e.g. "I ate but didn't drink"
                    _register_subjs(node, subj, tree)
            elif all([node in naked_cpls, parent.tag in NOUN_TAGS, not tree.has_child_via(node, Dep.OBJ)]):
                subj = tree.child_via(node, Dep.SUBJ)
                if subj and subj.canon not in self.__relative_pronouns:
                    # Object of complement verb: e.g. "the apple I ate"
                    _register_objs(node, parent, tree)
''')]),
    ('r-af-relpron', None, [(AF, '''        dep_parent = tree.parent(verb)
        if dep_parent is not None:
            dep, parent = dep_parent
            if all([pron.tag == Tag.PRON, pron.canon in self.__relative_pronouns, dep == Dep.CPL,
                    parent.tag in NOUN_TAGS,
                    not tree.has_child_via_set(verb, MARKER_DEPS)]):
                return parent
        return None
''', '''        if pron.tag != Tag.PRON or pron.canon not in self.__relative_pronouns:
            return None
        dep_parent = tree.parent(verb)
        if dep_parent is None:
            return None
        dep, parent = dep_parent
        if dep == Dep.CPL and parent.tag in NOUN_TAGS and not tree.has_child_via_set(verb, MARKER_DEPS):
            return parent
        return None
''')]),
    ('r-nd-nodeps', None, [(ND, '''        bl_idxs = set()  # Black list of token indexes (flat, particles, NODEP)
        # Detect NODEPs
        for idx, _ in enumerate(tokens):
            if not idx_tree.has_node(idx):
                bl_idxs.add(idx)
''', '''        # Black list of token indexes (flat, particles, NODEP)
        bl_idxs = {idx for idx in range(len(tokens)) if not idx_tree.has_node(idx)}
''')]),
    ('r-nd-part', None, [(ND, '''            particle_idxs = []
            for child_dep, child_idx in idx_tree.children(idx):
                if child_dep == Dep.PART:
                    particle_idxs.append(child_idx)
''', '''            particle_idxs = [child_idx for child_dep, child_idx in idx_tree.children(idx) if child_dep == Dep.PART]
''')]),
    ('r-nd-root', None, [(ND, '''            root_node = Node(idx_tree.root, tokens[idx_tree.root], tags[idx_tree.root])
            return {idx_tree.root: root_node}, Tree(root_node)
''', '''            root_idx = idx_tree.root
            root_node = Node(root_idx, tokens[root_idx], tags[root_idx])
            return {root_idx: root_node}, Tree(root_node)
''')]),
    ('r-nd-flat', None, [(ND, '''            if not idx_tree.children(idx):
                dep_idx = idx_tree.parent(idx)
                if dep_idx is not None:
                    dep, parent_idx = dep_idx
                    if dep == Dep.FLAT:
                        anc_branch = idx_tree.ancestors_via(idx, Dep.FLAT)
                        anc_idx = anc_branch[0]
                        bl_idxs |= set([idx] + anc_branch)
                        flat_tokens = [tokens[i] for i in anc_branch] + [token]
                        node_dict[anc_idx] = Node(idx, cfg.COMPOUND_JOIN.join(flat_tokens), tags[idx])
''', '''            if idx_tree.children(idx) or not idx_tree.has_parent_via(idx, Dep.FLAT):
                continue
            anc_branch = idx_tree.ancestors_via(idx, Dep.FLAT)
            bl_idxs.update(anc_branch)
            bl_idxs.add(idx)
            flat_text = cfg.COMPOUND_JOIN.join([tokens[i] for i in anc_branch + [idx]])
            node_dict[anc_branch[0]] = Node(idx, flat_text, tags[idx])
''')]),
    ('r-nd-helper', None, [(ND, '''        # Delete functional nodes (only keep nodes that carry meaning)
        node_dict = {node.idx: node for node in node_dict.values() if
                     not node_tree.has_parent_via_set(node, FUNCTIONAL_DEPS)}
        return node_dict, node_tree
''', '''        # Delete functional nodes (only keep nodes that carry meaning)
        meaningful = {}
        for node in node_dict.values():
            if node_tree.has_parent_via_set(node, FUNCTIONAL_DEPS):
                continue
            meaningful[node.idx] = node
        return meaningful, node_tree
''')]),
    ('r-ch-filter', None, [('syntax/chunker.py', '''        for noun in [n for n in nodes if n.tag in NOUN_TAGS]:
            dep_parent = node_tree.parent(noun)
            if dep_parent is not None:
                dep, parent = dep_parent
                if dep == Dep.CPL and not node_tree.has_child_via_set(noun, MARKER_DEPS) and noun.idx < parent.idx \\
                        and parent.tag in NOUN_TAGS:
                    append_to_dict_list(compound_nouns, parent, noun)
                    have_parent.add(noun)
''', '''        for noun in nodes:
            if noun.tag not in NOUN_TAGS:
                continue
            dep_parent = node_tree.parent(noun)
            if dep_parent is None:
                continue
            dep, parent = dep_parent
            if dep != Dep.CPL or parent.tag not in NOUN_TAGS or noun.idx >= parent.idx:
                continue
            if not node_tree.has_child_via_set(noun, MARKER_DEPS):
                append_to_dict_list(compound_nouns, parent, noun)
                have_parent.add(noun)
''')]),
    ('r-ch-sorted', None, [('syntax/chunker.py', '''    nouns.sort(key=lambda x: x.idx)
    return cfg.COMPOUND_JOIN.join([n.lemma for n in nouns])
''', '''    return cfg.COMPOUND_JOIN.join([n.lemma for n in sorted(nouns, key=lambda n: n.idx)])
''')]),
    ('r-ch-root', None, [('syntax/chunker.py', '''        for root in [n for n in nodes if n in compound_nouns and n not in have_parent]:
            root.chunk = _chunk(root, compound_nouns)''', '''        for node in nodes:
            if node in compound_nouns and node not in have_parent:
                node.chunk = _chunk(node, compound_nouns)''')]),
    ('r-ch-gen', None, [('syntax/chunker.py', '''    nouns = [noun]

    def _chunk_recursive(_noun):
        for _cnoun in compound_nouns.get(_noun, []):
            nouns.append(_cnoun)
            _chunk_recursive(_cnoun)

    _chunk_recursive(noun)
    nouns.sort''', '''    def _collect(_noun):
        collected = [_noun]
        for _cnoun in compound_nouns.get(_noun, []):
            collected.extend(_collect(_cnoun))
        return collected

    nouns = _collect(noun)
    nouns.sort''')]),
    ('r-ch-stack', None, [('syntax/chunker.py', '''    nouns = [noun]

    def _chunk_recursive(_noun):
        for _cnoun in compound_nouns.get(_noun, []):
            nouns.append(_cnoun)
            _chunk_recursive(_cnoun)

    _chunk_recursive(noun)
    nouns.sort''', '''    nouns = []
    stack = [noun]
    while stack:
        current = stack.pop()
        nouns.append(current)
        stack.extend(compound_nouns.get(current, []))
    nouns.sort''')]),
    ('r-fx-early', None, [('syntax/fixer.py', '''        if not node_tree.children(node):
            dep_parent = node_tree.parent(node)
            if dep_parent:
                dep, parent = dep_parent
                if any([dep == Dep.CPL and parent.tag in NOUN_TAGS, dep in PROP_DEPS]):
                    if node.lemma in self.__adjs and node.tag in NOUN_TAGS:
                        node.tag = Tag.ADJ
                    elif node.lemma in self.__nouns and node.tag == Tag.ADJ:
                        node.tag = Tag.NOUN''', '''        if node_tree.children(node):
            return
        dep_parent = node_tree.parent(node)
        if dep_parent is None:
            return
        dep, parent = dep_parent
        is_noun_complement = dep == Dep.CPL and parent.tag in NOUN_TAGS
        if not is_noun_complement and dep not in PROP_DEPS:
            return
        if node.tag in NOUN_TAGS and node.lemma in self.__adjs:
            node.tag = Tag.ADJ
        elif node.tag == Tag.ADJ and node.lemma in self.__nouns:
            node.tag = Tag.NOUN''')]),
    # ---- extractor
    ('r-ex-code', None, [(X, '''    if noun.tag == Tag.PROPN:
        return ArgCode.PROPN.value
    if noun.tag == Tag.PRON:
        return ArgCode.PRON.value
    if noun.tag == Tag.NUM:
        return ArgCode.NUM.value
    if noun.tag == Tag.SYM:
        return ArgCode.SYM.value
    return ArgCode.NOUN.value
''', '''    codes = {Tag.PROPN: ArgCode.PROPN, Tag.PRON: ArgCode.PRON, Tag.NUM: ArgCode.NUM, Tag.SYM: ArgCode.SYM}
    return codes.get(noun.tag, ArgCode.NOUN).value
''')]),
    ('r-ex-code2', None, [(X, '''    if adj.active_verb:
        return ArgCode.PP.value
    return ArgCode.ADJ.value
''', '''    return ArgCode.PP.value if adj.active_verb else ArgCode.ADJ.value
''')]),
    ('r-ex-nounarg', None, [(X, '''class SemanticTupleExtractor(object):''', '''def _noun_arg(noun):
    return Argument(noun.canon, _noun_arg_code(noun))


def _nouns(nodes):
    return [node for node in nodes if node.tag in NOUN_TAGS]


class SemanticTupleExtractor(object):'''), (X, '''        for iobj in [io for io in verb.iobjs if io.tag in NOUN_TAGS]:
            iobj_arg = Argument(iobj.canon, _noun_arg_code(iobj))
            for subj in [s for s in verb.subjs if s.tag in NOUN_TAGS]:
                subj_arg = Argument(subj.canon, _noun_arg_code(subj))
                verb_arg = Argument(verb.canon, ArgCode.REC.value, xnor(subj.is_aff, verb.is_aff, iobj.is_aff))
                stuples.append(SemanticTuple(subj_arg, verb_arg, iobj_arg))
''', '''        for iobj in _nouns(verb.iobjs):
            for subj in _nouns(verb.subjs):
                verb_arg = Argument(verb.canon, ArgCode.REC.value, xnor(subj.is_aff, verb.is_aff, iobj.is_aff))
                stuples.append(SemanticTuple(_noun_arg(subj), verb_arg, _noun_arg(iobj)))
''')]),
    ('r-ex-rounds', None, [(X, '''            if node.tag == Tag.VERB and not any([node.is_inf_to, node.cannot_be_transitive]):
                stuples.extend(self.__make_stuples_from_verbs_subjs_objs(node, blocked_for_round_2))
''', '''            if node.tag != Tag.VERB or node.is_inf_to or node.cannot_be_transitive:
                continue
            stuples.extend(self.__make_stuples_from_verbs_subjs_objs(node, blocked_for_round_2))
''')]),
    ('r-ex-third', None, [(X, '''        for node in nodes:
            if node.tag == Tag.VERB and not node.cannot_be_transitive:
                stuples.extend(self.__make_stuples_from_objs(node))
        return stuples
''', '''        transitive_verbs = [node for node in nodes if node.tag == Tag.VERB and not node.cannot_be_transitive]
        for verb in transitive_verbs:
            stuples += self.__make_stuples_from_objs(verb)
        return stuples
''')]),
    ('r-ex-pp', None, [(X, '''                pp = self.__inflector.past_participle(verb.lemma)
                if verb.particles:
                    pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)
                adj_arg = Argument(pp, ArgCode.PP.value)
''', '''                adj_arg = Argument(self.__past_participle(verb), ArgCode.PP.value)
'''), (X, '''            pp = self.__inflector.past_participle(verb.lemma)
            if verb.particles:
                pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)
            copula_arg = Argument(' '.join(['be', pp]), ArgCode.COP.value, is_aff)
            iprop_arg''', '''            copula_arg = Argument('be ' + self.__past_participle(verb), ArgCode.COP.value, is_aff)
            iprop_arg'''), (X, '''    def __make_stuples_from_iprops(self, noun):''', '''    def __past_participle(self, verb):
        pp = self.__inflector.past_participle(verb.lemma)
        return cfg.COMPOUND_JOIN.join([pp] + verb.particles)

    def __make_stuples_from_iprops(self, noun):''')]),
    ('r-ex-iprop', None, [(X, '''            if subj is None:
                is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)
            else:
                is_aff = xnor(subj.is_aff, verb.is_aff, noun.is_aff, iprop.is_aff)
''', '''            is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)
            if subj is not None:
                is_aff = xnor(subj.is_aff, is_aff)
''')]),
    ('r-ex-passive', None, [(X, '''                if not subjs:
                    is_aff = xnor(verb.is_aff, obj.is_aff)
                else:
                    is_aff = xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)
''', '''                is_aff = verb.is_aff == obj.is_aff
                if subjs and not any(subj.is_aff for subj in subjs):
                    is_aff = not is_aff
''')]),
    ('r-ex-pol', None, [(X, "    return sum([not node.is_aff for node in set(nodes)]) % 2 == 0", "    negated = [node for node in set(nodes) if not node.is_aff]\n    return len(negated) % 2 == 0")]),
    ('r-ex-zip', None, [(X, "        for pp, prop in [(pp, p) for pp, p in noun.pps_props if p.tag in PROP_TAGS]:\n            is_aff", "        for pp, prop in noun.pps_props:\n            if prop.tag not in PROP_TAGS:\n                continue\n            is_aff")]),
    ('r-ex-objsloop', None, [(X, '''        for obj in [o for o in verb.objs if o.tag in NOUN_TAGS]:
            obj_arg = Argument(obj.canon, _noun_arg_code(obj))
            # Transitive forms
            for subj in [s for s in verb.subjs if s.tag in NOUN_TAGS]:
                subj_arg = Argument(subj.canon, _noun_arg_code(subj))
''', '''        subjs = [s for s in verb.subjs if s.tag in NOUN_TAGS]
        for obj in [o for o in verb.objs if o.tag in NOUN_TAGS]:
            obj_arg = Argument(obj.canon, _noun_arg_code(obj))
            # Transitive forms
            for subj in subjs:
                subj_arg = Argument(subj.canon, _noun_arg_code(subj))
''')]),
    ('r-ex-clause', None, [(X, '''                if not obj_1.subjs:
                    subjs_2 = [subj_1]  # e.g. "I want to sing"
                else:
                    subjs_2 = [s for s in obj_1.subjs if s.tag in NOUN_TAGS]
''', '''                # e.g. "I want to sing"
                subjs_2 = [s for s in obj_1.subjs if s.tag in NOUN_TAGS] if obj_1.subjs else [subj_1]
''')]),
]
