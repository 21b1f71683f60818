"""Contracts of analysed components, used where a driver analyses code that *uses* the component.

A cut replaces a function or class of the package by a specification written as (abstractly interpreted) Python
source.  Every contract used here is itself the subject of a check on the component (see DESIGN.md)."""
from .terms import raw, const, sym, one, mk_cat

SPEC = '''
def run_multithreads(items, process, nb_threads):
    return [process(item) for item in items]


class TreeSpec(object):
    def children(self, node):
        return [(label, child) for label, child in self.kids_of(node)]

    def children_via(self, node, label):
        return [child for lab, child in self.kids_of(node) if lab == label]

    def child_via(self, node, label):
        return next((child for lab, child in self.kids_of(node) if lab == label), None)

    def has_child_via(self, node, label):
        return any(lab == label for lab, child in self.kids_of(node))

    def has_child_via_set(self, node, labels):
        return any(lab in labels for lab, child in self.kids_of(node))

    def parent(self, node):
        return self.parent_of(node)

    def has_parent_via(self, node, label):
        p = self.parent_of(node)
        return p is not None and p[0] == label

    def has_parent_via_set(self, node, labels):
        p = self.parent_of(node)
        return p is not None and p[0] in labels

    def siblings(self, node):
        p = self.parent_of(node)
        if p is None:
            return []
        return [(label, child) for label, child in self.kids_of(p[1]) if child != node]

    def __iter__(self):
        return iter(self.arcs_of())

    def __len__(self):
        return len(self.arcs_of()) + 1


class TupleSpec(object):
    def __init__(self, *args):
        self.args = args


class ArgumentSpec(object):
    def __init__(self, word, code, is_affirmative=True):
        self.word = word
        self.code = code
        self.is_affirmative = is_affirmative


class ArgumentPol(object):
    def __init__(self, word, code, is_affirmative=True):
        self.word = word
        self.is_affirmative = is_affirmative


class ArgumentCode(object):
    def __init__(self, word, code, is_affirmative=True):
        self.code = code


class ArgumentWord(object):
    def __init__(self, word, code, is_affirmative=True):
        self.word = word


class StoreSpec(object):
    def __init__(self):
        self.texts = []

    def __len__(self):
        return len(set(self.texts))

    @property
    def ngrams(self):
        return self.texts

    def make_ngram(self, text):
        self.texts.append(text)
        return text


class ParseSpec(object):
    def __init__(self, seq_length, tag_codes, dep_codes, char_codes, word_vectors):
        self.given = (seq_length, tag_codes, dep_codes, char_codes, word_vectors)
        self.tags = parse_tags(self.given)
        self.arcs = parse_arcs(self.given)
        self.root = parse_root(self.given)

    @property
    def complete(self):
        return parse_complete(self.given)

    @property
    def mats(self):
        return self.given + parse_masks(self.given)

    def register_transition(self, trans):
        self.latest = trans


class ParserSpec(object):
    def __init__(self, nb_processes, batch_size):
        self.nb_processes = nb_processes
        self.batch_size = batch_size

    def __call__(self, token_lists):
        return ([self.tags_of(tokens) for tokens in token_lists], [self.tree_of(tokens) for tokens in token_lists])


def logic_process(self, token_lists, tags, idx_trees, chunk_common_nouns, nb_processes=None):
    results = [self.logic_result(a, b, c, chunk_common_nouns) for a, b, c in zip(token_lists, tags, idx_trees)]
    return [r[0] for r in results], [r[1] for r in results]
'''


def redirect(name):
    """Analyse the specification function/class `name` instead of the component."""
    def handler(interp, f, args, kwargs, st, node):
        fr = spec_frame(interp, st)
        return interp.call(st.vars[(fr, name)], args, kwargs, st, node)
    return handler


def spec_frame(interp, st):
    if 'sa_spec' not in interp.loader.cache:
        interp.loader.add_source('sa_spec', SPEC, '<contracts>')
    return interp.load_module('sa_spec', st)


def opaque(name):
    """The component returns an unknown value that only depends on its (normalised) arguments."""
    def handler(interp, f, args, kwargs, st, node):
        vals = bound_args(interp, f, args, kwargs, st)
        return raw('libcall', 'contract.' + name, *vals)
    return handler


def bound_args(interp, f, args, kwargs, st):
    fi = None
    if f.op == 'class':
        init = interp.class_lookup(interp.classes[f.args[0]], '__init__')
        if init is not None and init.op == 'func':
            fi = interp.funcs[init.args[0]]
    elif f.op == 'func':
        fi = interp.funcs[f.args[0]]
    if fi is not None:
        names = list(fi.params)
        if f.op == 'class':
            names = names[1:]
        env = dict(zip(names, args))
        env.update(kwargs)
        nd = len(fi.defaults)
        for k, d in zip(fi.params[len(fi.params) - nd:], fi.defaults):
            env.setdefault(k, d)
        rest = [interp.freeze(a, st) for a in args[len(names):]]
        return [interp.freeze(env[n], st) for n in names if n in env] + rest
    return [interp.freeze(a, st) for a in args] + \
        [raw('tuple', const(k), interp.freeze(v, st)) for k, v in sorted(kwargs.items())]


P = 'scrappybara.'
COMPONENTS = ['normalization.canonicalizer.Canonicalizer', 'normalization.lemmatizer.Lemmatizer',
              'normalization.standardizer.Standardizer', 'semantics.semantic_tuple_extractor.SemanticTupleExtractor',
              'syntax.arg_finder.ArgFinder', 'syntax.chunker.Chunker', 'syntax.fixer.Fixer',
              'syntax.nodifier.Nodifier']

CUTS = {
    'mt': {P + 'utils.multithreading.run_multithreads': redirect('run_multithreads')},
    'tree': {},
    'stuple': {P + 'semantics.semantic_tuple.SemanticTuple': redirect('TupleSpec'),
               P + 'semantics.argument.Argument': redirect('ArgumentSpec')},
    'stuple_pol': {P + 'semantics.semantic_tuple.SemanticTuple': redirect('TupleSpec'),
                   P + 'semantics.argument.Argument': redirect('ArgumentPol')},
    'stuple_code': {P + 'semantics.semantic_tuple.SemanticTuple': redirect('TupleSpec'),
                    P + 'semantics.argument.Argument': redirect('ArgumentCode')},
    'stuple_word': {P + 'semantics.semantic_tuple.SemanticTuple': redirect('TupleSpec'),
                    P + 'semantics.argument.Argument': redirect('ArgumentWord')},
    'inflector': {P + 'normalization.inflector.Inflector': opaque('Inflector')},
    'files': {P + 'utils.files.load_dict_from_txt_file': opaque('load_dict_from_txt_file'),
              P + 'utils.files.load_set_from_txt_file': opaque('load_set_from_txt_file')},
    'components': {P + c: opaque(c.split('.')[-1]) for c in COMPONENTS},
    'lm': {P + 'langmodel.language_model.LanguageModel': opaque('LanguageModel')},
    'parser': {P + 'syntax.parser.Parser': redirect('ParserSpec')},
    'vectors': {P + 'syntax.training_samples.vectorize_sentence': opaque('vectorize_sentence'),
                P + 'syntax.models.PTagsModel': opaque('PTagsModel'), P + 'syntax.models.PDepsModel': opaque('PDepsModel'),
                P + 'syntax.models.TransModel': opaque('TransModel')},
    'parse': {P + 'syntax.parser._Parse': redirect('ParseSpec')},
    'logicproc': {P + 'pipeline.logic_pipeline.LogicPipeline._logic_process': redirect('logic_process')},
    'models': {P + 'syntax.charset.Charset': opaque('Charset'), P + 'syntax.wordset.Wordset': opaque('Wordset')},
    'tokenizer': {P + 'preprocessing.tokenizer.Tokenizer': opaque('Tokenizer')},
    'store': {P + 'langmodel.ngram_store.NgramStore': redirect('StoreSpec')},
    'smoothers': {P + 'langmodel.mkn_smoother.MKNSmoother': opaque('MKNSmoother'),
                  P + 'langmodel.mle_smoother.MLESmoother': opaque('MLESmoother')},
}


def build(names):
    out = {}
    for n in names:
        out.update(CUTS[n])
    return out
