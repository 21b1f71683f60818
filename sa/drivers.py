"""Entry points that are analysed: small client programs written against the public API of the package.

Each driver is the source text of a client (never executed: it is interpreted abstractly together with the package)
whose parameters are opaque symbols, i.e. stand for every possible value."""

D = {}


def driver(name, params, src, cuts=(), attrs=None, **opts):
    D[name] = dict(name=name, params=params.split(), src=src, cuts=tuple(cuts), attrs=attrs or {}, opts=opts)


# -- semantics -------------------------------------------------------------------------------------
driver('extract', 'lm:ext lemma_pp:ext nodes', '''
from scrappybara.semantics.semantic_tuple_extractor import SemanticTupleExtractor
def entry(lm, lemma_pp, nodes):
    return SemanticTupleExtractor(lm, lemma_pp)(nodes)
''', cuts=['inflector', 'stuple'])

for _view in ('pol', 'code', 'word'):
    driver('extract_' + _view, 'lm:ext lemma_pp:ext nodes', D['extract']['src'], cuts=['inflector', 'stuple_' + _view])

driver('stuple_api', 'a b c flag idx code', '''
from scrappybara.semantics.semantic_tuple import SemanticTuple
def entry(a, b, c, flag, idx, code):
    t = SemanticTuple(a, b, c)
    return (t.code, t.flatten(flag), str(t), repr(t), t.arg(idx), t.has_any_arg_with_code(code), list(t), len(t), list(t), t.flatten(flag),
            t.code, twice(t))
def twice(t):
    i = iter(t)
    j = iter(t)
    return next(i), next(j), next(i), next(j)
''')

driver('stuple_api_n', 'args flag idx code', '''
from scrappybara.semantics.semantic_tuple import SemanticTuple
def entry(args, flag, idx, code):
    t = SemanticTuple(*args)
    return (t.code, t.flatten(flag), str(t), repr(t), t.arg(idx), t.has_any_arg_with_code(code), list(t), len(t))
''')

driver('argument_api', 'word code aff flag', '''
from scrappybara.semantics.argument import Argument
def entry(word, code, aff, flag):
    a = Argument(word, code, aff)
    return (a.word, a.code, a.is_affirmative, a.tag, a.flatten(flag), str(a), repr(a), Argument(word, code).is_affirmative)
''')

driver('document_api', 'lists stuples', '''
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
def entry(lists, stuples):
    d = Document()
    for x in lists:
        s = Sentence()
        s.stuples = x
        d.sentences.append(s)
    s = Sentence()
    s.stuples = stuples
    return (list(d), d.stuples, list(s), Document().sentences, Sentence().stuples, list(d), list(s))
''')

driver('document_two', 'a b c', '''
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
def entry(a, b, c):
    d, s, t = Document(), Sentence(), Sentence()
    s.stuples = [a, b]
    t.stuples = [c]
    d.sentences = [s, t]
    i = iter(d)
    j = iter(d)
    k = iter(s)
    l = iter(s)
    return (list(d), list(d), d.stuples, d.stuples, d.sentences, list(s), list(s), s.stuples, next(i), next(j), next(i), next(j),
            next(k), next(l), next(k))
''')

# -- syntax ----------------------------------------------------------------------------------------
driver('arg_finder', 'nodes tree:sa_spec.TreeSpec', '''
from scrappybara.syntax.arg_finder import ArgFinder
def entry(nodes, tree):
    return ArgFinder()(nodes, tree)
''', cuts=['tree'])

driver('node', 'idx text tag', '''
from scrappybara.syntax.node import Node
def entry(idx, text, tag):
    n = Node(idx, text, tag)
    return n, n.cconjs, n.aggreg, n.cannot_be_transitive
''')
driver('node_api', 'node', '''
from scrappybara.syntax.node import Node
def entry(ands, ors, props, iprops, exists, canon):
    n = Node(0, 'x', None)
    n.and_cconjs = ands
    n.or_cconjs = ors
    n.props = props
    n.iprops = iprops
    n.exists = exists
    n.canon = canon
    return n.cconjs, n.aggreg, n.cannot_be_transitive, str(n), repr(n)
''')
D['node_api']['params'] = ['ands', 'ors', 'props', 'iprops', 'exists', 'canon']

driver('chunk', 'nodes tree:sa_spec.TreeSpec', '''
from scrappybara.syntax.chunker import Chunker
def entry(nodes, tree):
    return Chunker()(nodes, tree)
''', cuts=['tree'])

driver('fix', 'adjs:ext nouns:ext node tree:sa_spec.TreeSpec', '''
from scrappybara.syntax.fixer import Fixer
def entry(adjs, nouns, node, tree):
    return Fixer(adjs, nouns)(node, tree)
''', cuts=['tree'])

driver('nodify', 'tokens tags tree:sa_spec.TreeSpec', '''
from scrappybara.syntax.nodifier import Nodifier
def entry(tokens, tags, tree):
    return Nodifier()(tokens, tags, tree)
''', cuts=['tree'])

driver('canon', 'lemmatize:ext node', '''
from scrappybara.normalization.canonicalizer import Canonicalizer
def entry(lemmatize, node):
    return Canonicalizer(lemmatize)(node)
''')
driver('inflect', 'lm:ext lemma_pp:ext lemma', '''
from scrappybara.normalization.inflector import Inflector
def entry(lm, lemma_pp, lemma):
    return Inflector(lm, lemma_pp).past_participle(lemma)
''')
driver('lemma', 'lm:ext adjs:ext pret:ext pp:ext plural:ext comp:ext sup:ext lemma_pp:ext word tag', '''
from scrappybara.normalization.lemmatizer import Lemmatizer
def entry(lm, adjs, pret, pp, plural, comp, sup, lemma_pp, word, tag):
    return Lemmatizer(lm, adjs, pret, pp, plural, comp, sup, lemma_pp)(word, tag)
''')
driver('standard', 'lm:ext text', '''
from scrappybara.normalization.standardizer import Standardizer
def entry(lm, text):
    return Standardizer(lm)(text)
''')
driver('logic', 'lm:ext token_lists tags trees chunk nb', '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
def entry(lm, token_lists, tags, trees, chunk, nb):
    return LogicPipeline(lm)._logic_process(token_lists, tags, trees, chunk, nb)
''', cuts=['files', 'components', 'mt'])
driver('logic1', 'lm:ext tokens tags tree chunk nb', '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
def entry(lm, tokens, tags, tree, chunk, nb):
    return LogicPipeline(lm)._logic_process([tokens], [tags], [tree], chunk, nb)
''', cuts=['files', 'components', 'mt'])
driver('pipeline', 'sentencizer:ext nb batch gpu texts chunk', '''
from scrappybara.pipeline.pipeline import Pipeline
def entry(sentencizer, nb, batch, gpu, texts, chunk):
    return Pipeline(sentencizer, nb, batch, gpu)(texts, chunk)
''', cuts=['files', 'lm', 'parser', 'logicproc', 'mt'])

# -- utils -----------------------------------------------------------------------------------------
driver('mt', 'items process:ext nb', '''
from scrappybara.utils.multithreading import run_multithreads
def entry(items, process, nb):
    return run_multithreads(items, process, nb)
''')
driver('mt_fail', 'items process:ext nb', '''
from scrappybara.utils.multithreading import run_multithreads
def entry(items, process, nb):
    return run_multithreads(items, process, nb)
''', interp={'fallible': ('process',)})
driver('divide', 'items nb', '''
from scrappybara.utils.mutables import divide_list
def entry(items, nb):
    return divide_list(items, nb)
''')
driver('batches', 'items nb', '''
from scrappybara.utils.mutables import make_batches
def entry(items, nb):
    return make_batches(items, nb)
''')
driver('dictutils', 'dic k1 k2 item', '''
from scrappybara.utils.mutables import append_to_dict_list, add_in_dict_set, append_in_dict_dict_list, reverse_dict
def entry(dic, k1, k2, item):
    append_to_dict_list(dic, k1, item)
    return reverse_dict(dic)
''')
driver('tree', 'root l1 p1 c1', '''
from scrappybara.utils.tree import Tree
def entry(root, arcs, node, label, labels):
    t = Tree(root)
    for l, p, c in arcs:
        t.register_child(l, p, c)
    return (list(t), len(t), t.nodes, t.has_node(node), t.ancestors_via(node, label), t.descendants_via(node, label),
            t.parent(node), t.has_parent_via(node, label), t.has_parent_via_set(node, labels), t.children(node),
            t.children_via(node, label), t.child_via(node, label), t.has_child_via(node, label),
            t.has_child_via_set(node, labels), t.siblings(node), list(t), len(t), t.children(node), t.nodes)
''')
D['tree']['params'] = ['root', 'arcs', 'node', 'label', 'labels']
driver('tree_iter', 'l1 l2 l3', '''
from scrappybara.utils.tree import Tree
def entry(l1, l2, l3):
    t = Tree(0)
    t.register_child(l1, 0, 1)
    t.register_child(l2, 0, 2)
    t.register_child(l3, 1, 3)
    i = iter(t)
    a = next(i)
    j = iter(t)
    b = next(j)
    c = next(i)
    return a, b, c, next(j), next(i), list(t), list(t)
''')
for _name, _params, _arcs in (('tree_empty', 'root node label labels', ''),
                              ('tree_small', 'node label labels', "    t.register_child('a', 0, 1)\n    t.register_child('b', 0, 2)\n"
                               "    t.register_child('a', 0, 3)\n    t.register_child('a', 1, 4)\n    t.register_child('b', 4, 5)\n"
                               "    t.register_child('b', 0, 6)\n")):
    driver(_name, _params, '''
from scrappybara.utils.tree import Tree
def entry(%s):
    t = Tree(%s)
%s    return (list(t), len(t), t.nodes, t.has_node(node), t.ancestors_via(node, label), t.descendants_via(node, label),
            t.parent(node), t.has_parent_via(node, label), t.has_parent_via_set(node, labels), t.children(node),
            t.children_via(node, label), t.child_via(node, label), t.has_child_via(node, label),
            t.has_child_via_set(node, labels), t.siblings(node), t.root)
''' % (', '.join(_params.split()), 'root' if 'root' in _params else '0', _arcs))
driver('text', 'token ending n prefixes', '''
from scrappybara.utils import text
def entry(token, ending, n, prefixes):
    return (text.starts_with_uppercase_letter(token), text.ends_with_consonant(token), text.has_only_letters(token),
            text.token_start(token, ending, n), text.token_prefix(token, prefixes),
            text.vowel_double_consonant_endings(token))
''')
driver('files', 'a b obj', '''
from scrappybara.utils import files
def entry(a, b, obj):
    files.save_pkl_file(obj, a, b)
    return (files.file_path(a, b), files.load_pkl_file(a, b), files.load_set_from_txt_file(a, b),
            files.load_dict_from_txt_file(a, b))
''')

# -- models ----------------------------------------------------------------------------------------
driver('vectorize', 'tokens charset:ext wordset:ext', '''
from scrappybara.syntax.training_samples import vectorize_sentence
def entry(tokens, charset, wordset):
    return vectorize_sentence(tokens, charset, wordset)
''')
driver('masks', 'i j', '''
from scrappybara.syntax.training_samples import make_masks
def entry(i, j):
    return make_masks(i, j)
''')
driver('samples', 'tokens tags deps i j tr charset:ext wordset:ext', '''
from scrappybara.syntax.training_samples import PTagsSample, PDepsSample, TransSample
def entry(tokens, tags, deps, i, j, tr, charset, wordset):
    return (PTagsSample(tokens, tags, charset, wordset).training_mats,
            PDepsSample(tokens, tags, deps, charset, wordset).training_mats,
            TransSample(tokens, tags, deps, i, j, tr, charset, wordset).training_mats)
''')
driver('charset', 'ch', '''
from scrappybara.syntax.charset import Charset
def entry(ch):
    c = Charset().load()
    return c[ch], len(c)
''')
driver('charset_save', '', '''
from scrappybara.syntax.charset import Charset
def entry():
    return Charset().save()
''')
driver('wordset', 'word', '''
from scrappybara.syntax.wordset import Wordset
def entry(word):
    c = Wordset().load()
    return c[word], len(c)
''')
driver('wordset_save', 'folder lm:ext', '''
from scrappybara.syntax.wordset import Wordset
def entry(folder, lm):
    return Wordset().save(folder, lm)
''')
driver('models', 'n a b c d e f', '''
from scrappybara.syntax.models import PTagsModel, PDepsModel, TransModel
def entry(n, a, b, c, d, e, f):
    return (PTagsModel(n).load().predict(a, b), PDepsModel(n).load().predict(a, b, c),
            TransModel(n).load().predict(a, b, c, d, e, f))
''')
driver('learn', 'n bs pat ep y vs a b c d e f', '''
from scrappybara.syntax.models import PTagsModel, PDepsModel, TransModel
def entry(n, bs, pat, ep, y, vs, a, b, c, d, e, f):
    m1 = PTagsModel(n)
    m1.learn(bs, pat, ep, y, vs, a, b)
    m1.save()
    m2 = PDepsModel(n)
    m2.learn(bs, pat, ep, y, vs, a, b, c)
    m2.save()
    m3 = TransModel(n)
    m3.learn(bs, pat, ep, y, vs, a, b, c, d, e, f)
    m3.save()
''')
driver('tagger', 'token_lists', '''
from scrappybara.syntax.tagger import Tagger
def entry(token_lists):
    return Tagger().tag(token_lists)
''', cuts=['models'])
driver('parser', 'nb bs token_lists', '''
from scrappybara.syntax.parser import Parser
def entry(nb, bs, token_lists):
    return Parser(nb, bs)(token_lists)
''', cuts=['models', 'mt'])
driver('parser_batches', 'nb bs token_lists', '''
from scrappybara.syntax.parser import Parser
def entry(nb, bs, token_lists):
    tags, trees = Parser(nb, bs)(token_lists)
    return tags, [None if t is None else (t.root, list(t)) for t in trees]
''', cuts=['models', 'mt', 'vectors', 'parse'])
driver('parse', 'sl tags deps chars vecs tr', '''
from scrappybara.syntax.parser import _Parse
def entry(sl, tags, deps, chars, vecs, tr):
    p = _Parse(sl, tags, deps, chars, vecs)
    return p.tags, p.arcs, p.complete, p.root, p.mats
''')
driver('parse_steps', 'sl tags deps chars vecs trs', '''
from scrappybara.syntax.parser import _Parse
def entry(sl, tags, deps, chars, vecs, trs):
    p = _Parse(sl, tags, deps, chars, vecs)
    for tr in trs:
        p.register_transition(tr)
    return p.tags, p.arcs, p.complete, p.root, p.mats
''')
driver('parse_two', 'sl tags deps chars vecs t1 t2', '''
from scrappybara.syntax.parser import _Parse
def entry(sl, tags, deps, chars, vecs, t1, t2):
    p = _Parse(sl, tags, deps, chars, vecs)
    p.register_transition(t1)
    p.register_transition(t2)
    return p.tags, p.arcs, p.complete, p.root, p.mats
''')
driver('parse_tree', 'parse', '''
from scrappybara.syntax.parser import _build_tree
def entry(parse):
    t = _build_tree(parse)
    if t is None:
        return None
    return t.root, list(t)
''')
driver('labelled', 'sid tuples', '''
from scrappybara.syntax.labelled_data import LabelledSentence
def entry(sid, tuples):
    s = LabelledSentence(sid, tuples)
    return s.id, s.tokens, s.tags, s.deps, s.tree, s.valid_idxs, None if s.tree is None else list(s.tree)
''', cuts=['tree'])
driver('labelled_api', 'sid tuples i j', '''
from scrappybara.syntax.labelled_data import LabelledSentence
def entry(sid, tuples, i, j):
    s = LabelledSentence(sid, tuples)
    return s.is_leaf(i), s.have_crossing_arcs(i, j), str(s), repr(s), len(s), s[i], list(s)
''')
driver('transitions', 'sid tuples', '''
from scrappybara.syntax.labelled_data import LabelledSentence
def entry(sid, tuples):
    s = LabelledSentence(sid, tuples)
    return s.transitions
''', cuts=['tree'])
driver('training', 'tl charset:ext wordset:ext', '''
from scrappybara.syntax.labelled_data import extract_ptags_training_data, extract_pdeps_training_data, extract_trans_training_data
def entry(tl, charset, wordset):
    return (extract_ptags_training_data(tl, charset, wordset), extract_pdeps_training_data(tl, charset, wordset),
       extract_trans_training_data(tl, charset, wordset))
''')

# -- preprocessing ---------------------------------------------------------------------------------
driver('tokenize', 'text', '''
from scrappybara.preprocessing.tokenizer import Tokenizer
def entry(text):
    return Tokenizer()(text)
''')
driver('sentencize', 'tokenizer:ext text', '''
from scrappybara.preprocessing.sentencizer import Sentencizer
def entry(tokenizer, text):
    return Sentencizer(tokenizer)(text)
''')
driver('sanitize', 'text reps', '''
from scrappybara.preprocessing.sanitization import sanitize
def entry(text, reps):
    return sanitize(text, reps)
''')

# -- language model --------------------------------------------------------------------------------
driver('lm_queries', 'counts ngram ngrams order limit text tokens before after mc', '''
from scrappybara.langmodel.language_model import LanguageModel
def entry(counts, ngram, ngrams, order, limit, text, tokens, before, after, mc):
    lm = LanguageModel(*counts)
    return (len(lm), ngram in lm, lm.top_ngrams(order, limit), lm.next_word(text, limit),
            lm.best_token(*tokens, before=before, after=after), lm.best_ngram(*ngrams), lm.has_ngram(ngram, mc))
''', cuts=['tokenizer'])
driver('builder', 'mo sm nb it', '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
def entry(mo, sm, nb, it):
    return LanguageModelBuilder(mo, sm, nb)(it)
''', cuts=['smoothers', 'store'])
driver('ngram', 'text v order other', '''
from scrappybara.langmodel.ngram import Ngram
def entry(text, v, order, other):
    n = Ngram(text)
    c = n.count
    n.proba = v
    return (n.text, n.tokens, c, n.proba, n.logp, n.order, n.last_token, n.without_last_token, n.wc_last_token,
            n.prepend_wc, n.continuous_ngram, n.lower_order(order), str(n), n > other)
''')
driver('store', 'texts', '''
from scrappybara.langmodel.ngram_store import NgramStore
def entry(texts):
    s = NgramStore()
    for t in texts:
        s.make_ngram(t)
    return s, len(s), s.ngrams
''')
driver('ngrams', 'token_lists order', '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
def entry(token_lists, order):
    return extract_ngrams(token_lists, order)
''')
driver('mle', 'ngrams order nb', '''
from scrappybara.langmodel.mle_smoother import MLESmoother
def entry(ngrams, order, nb):
    s = MLESmoother(ngrams, order, nb)
    return s()
''', cuts=['mt'])
driver('mkn', 'ngrams order nb', '''
from scrappybara.langmodel.mkn_smoother import MKNSmoother
def entry(ngrams, order, nb):
    s = MKNSmoother(ngrams, order, nb)
    return s()
''', cuts=['mt'])
driver('context', 'token before after order', '''
from scrappybara.langmodel.token_context import TokenContext
def entry(token, before, after, order):
    c = TokenContext(token, before, after)
    return c.candidates(order), c.left_ngram, c.right_ngram, c.token
''')

driver('vocab', '', '''
from scrappybara.syntax.tags import Tag, NB_TAGS, NOUN_TAGS, PROP_TAGS
from scrappybara.syntax.dependencies import Dep, NB_DEPS, MARKER_DEPS, PROP_DEPS, FUNCTIONAL_DEPS
from scrappybara.syntax.transitions import Trans
from scrappybara.normalization.suffixes import Suffix
from scrappybara.semantics.argument_code import ArgCode
import scrappybara.config as cfg
def entry():
    return ({(t.name, t.value) for t in Tag}, NB_TAGS, NOUN_TAGS, PROP_TAGS, {(d.name, d.value) for d in Dep}, NB_DEPS,
            MARKER_DEPS, PROP_DEPS, FUNCTIONAL_DEPS, {(t.name, t.value) for t in Trans},
            {(x.name, x.value) for x in ArgCode}, cfg.MAX_WORD_LENGTH, cfg.MAX_SENT_LENGTH, cfg.PADDED_SENT_LENGTH,
            cfg.PADDED_WORD_LENGTH, cfg.WORD_VECTOR_SIZE, cfg.ENCODING, cfg.COMPOUND_JOIN, cfg.NEGATION)
''')

# -- small instances: the same entry points on lists of known length with opaque items; loops that carry a value over from
# one item to the next (accumulators, duplicates, first or last item) are followed item by item here
driver('ngrams_small', 'a b c d', '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
def entry(a, b, c, d):
    return (extract_ngrams([[a, b]], 1), extract_ngrams([[a, b], [c]], 2), extract_ngrams([[a], [b]], 1), extract_ngrams([], 2),
            extract_ngrams([[a, b], [c, d]], 2))
''')
driver('store_small', 'a b c', '''
from scrappybara.langmodel.ngram_store import NgramStore
def entry(a, b, c):
    s = NgramStore()
    x = s.make_ngram(a)
    y = s.make_ngram(b)
    z = s.make_ngram(c)
    return [(n.text, n.count) for n in s.ngrams], len(s), x.count, y.count, z.count
''')
driver('pipeline_small', 'nb batch gpu chunk a b c d', '''
from scrappybara.pipeline.pipeline import Pipeline
def entry(nb, batch, gpu, chunk, a, b, c, d):
    def sentencize(text):
        return {1: [[a, b], [c]], 2: [], 3: [[d]]}[text]
    docs = Pipeline(sentencize, nb, batch, gpu)([1, 2, 3], chunk)
    return [[s.stuples for s in doc.sentences] for doc in docs], docs[0] is docs[1], docs[1] is docs[2]
''', cuts=['files', 'lm', 'parser', 'logicproc', 'mt'])
driver('lm_small', 'm n limit text x y z before after', '''
from scrappybara.langmodel.language_model import LanguageModel
def entry(m, n, limit, text, x, y, z, before, after):
    lm = LanguageModel(m, n)
    return (lm.next_word(text, limit), lm.best_token(x, y), lm.best_token(x, y, before=before, after=after),
            lm.best_ngram(x, y), lm.best_ngram(x, y, z))
''', cuts=['tokenizer'])
driver('context_small', 't a b c d', '''
from scrappybara.langmodel.token_context import TokenContext
def entry(t, a, b, c, d):
    x = TokenContext(t, [a, b], [c, d])
    y = TokenContext(t, [], [c, d])
    z = TokenContext(t, [a, b], [])
    return (x.candidates(2), x.candidates(3), x.candidates(4), y.candidates(2), y.candidates(3), z.candidates(2), z.candidates(3),
            x.left_ngram, x.right_ngram)
''')
driver('sentencize_small', 'text a b c', '''
from scrappybara.preprocessing.sentencizer import Sentencizer
def entry(text, a, b, c):
    return Sentencizer(lambda t: [a, b, c])(text)
''')
driver('parse_small', 'a b c d e f chars vecs t1 t2 t3', '''
from scrappybara.syntax.parser import _Parse
def entry(a, b, c, d, e, f, chars, vecs, t1, t2, t3):
    p = _Parse(5, [0, a, b, c, 0], [0, d, e, f, 0], chars, vecs)
    out = [p.tags, p.complete]
    for t in [t1, t2, t3]:
        if not p.complete:
            p.register_transition(t)
    return out, p.arcs, p.complete, p.root
''')
driver('chunk_small', 't1 t2 t3 m1 m2 m3', '''
from scrappybara.syntax.chunker import Chunker
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
from scrappybara.syntax.dependencies import Dep
from scrappybara.utils.tree import Tree
def entry(t1, t2, t3, m1, m2, m3):
    a, b, c = Node(0, 'x', Tag.NOUN), Node(1, 'y', t2), Node(2, 'z', Tag.NOUN)
    a.lemma, b.lemma, c.lemma = m1, m2, m3
    tree = Tree(c)
    tree.register_child(Dep.CPL, c, b)
    tree.register_child(Dep.CPL, b, a)
    Chunker()([a, b, c], tree)
    return a.chunk, b.chunk, c.chunk
''')
driver('extract_small', 'lm:ext lemma_pp:ext w1 w2 w3 w4 a1 a2 a3 a4', '''
from scrappybara.semantics.semantic_tuple_extractor import SemanticTupleExtractor
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
def entry(lm, lemma_pp, w1, w2, w3, w4, a1, a2, a3, a4):
    s, v, o, p = Node(0, 's', Tag.NOUN), Node(1, 'v', Tag.VERB), Node(2, 'o', Tag.NOUN), Node(3, 'p', Tag.NOUN)
    for n, w, a in ((s, w1, a1), (v, w2, a2), (o, w3, a3), (p, w4, a4)):
        n.canon = n.lemma = w
        n.is_aff = bool(a)
    v.subjs = [s, p]
    v.objs = [o]
    return SemanticTupleExtractor(lm, lemma_pp)([s, v, o, p])
''', cuts=['inflector', 'stuple'])
for _view in ('pol', 'code', 'word'):
    driver('extract_small_' + _view, ' '.join(D['extract_small']['params']), D['extract_small']['src'], cuts=['inflector', 'stuple_' + _view])
driver('builder_small', 'a b c', '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
def entry(a, b, c):
    return LanguageModelBuilder(2, 'modified_kneser_ney', 2)(iter([a, b, c]))
''', cuts=['smoothers', 'store'])
driver('logic_small', 'lm:ext a b ta tb ra rb chunk nb', '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
def entry(lm, a, b, ta, tb, ra, rb, chunk, nb):
    return LogicPipeline(lm)._logic_process([a, b], [ta, tb], [ra, rb], chunk, nb)
''', cuts=['files', 'components', 'mt'])
driver('vectorize_small', 'a b charset:ext wordset:ext', '''
from scrappybara.syntax.training_samples import vectorize_sentence
def entry(a, b, charset, wordset):
    return vectorize_sentence([a, b], charset, wordset)
''')
