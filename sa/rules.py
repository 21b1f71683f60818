"""Rules that need no specification of the analysed code: the code is compared with itself, or a discipline is checked."""
import ast
import os

from . import terms as tm
from .analyse import run_driver
from .canon import canon, Budget
from .compare import compare, imprecise
from .loader import AnalysisError
from .summary import events_seq, number, EFFECTS
from .terms import raw, const, subterms, is_const, cval, EMPTY, subst

RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def run(name, root):
    return RULES[name](root)


def result(name):
    return {'driver': 'rule:' + name, 'components': [], 'status': 'ok', 'notes': [], 'stats': {}, 'functions': []}


def note_run(out, r):
    for k, v in r.interp.stats.items():
        if isinstance(v, int):
            out['stats'][k] = out['stats'].get(k, 0) + v
    out['functions'] = sorted(set(out['functions']) | set(f for f in r.interp.stats['functions'] if f.startswith('scrappybara.')))


# -----------------------------------------------------------------------------------------------------
# history: the result of an operation does not depend on the operations before it
# -----------------------------------------------------------------------------------------------------

# name: (imports, constructor, parameters of the constructor, operation on `o`, parameters of the operation, cuts)
H = {}


def hist(name, imports, ctor, cparams, op, params, cuts=(), thorough=False):
    H[name] = (imports, ctor, cparams.split(), op, params.split(), tuple(cuts), thorough)


hist('tokenizer', 'from scrappybara.preprocessing.tokenizer import Tokenizer', 'Tokenizer()', '', 'o(text)', 'text')
hist('sentencizer', 'from scrappybara.preprocessing.sentencizer import Sentencizer', 'Sentencizer(tok)', 'tok:ext', 'o(text)',
     'text')
hist('standardizer', 'from scrappybara.normalization.standardizer import Standardizer', 'Standardizer(lm)', 'lm:ext',
     'o(word)', 'word')
hist('inflector', 'from scrappybara.normalization.inflector import Inflector', 'Inflector(lm, dict(pps))', 'lm:ext pps:ext',
     'o.past_participle(lemma)', 'lemma')
hist('lemmatizer', 'from scrappybara.normalization.lemmatizer import Lemmatizer', 'Lemmatizer(lm, a, b, c, d, e, f, g)',
     'lm:ext a:ext b:ext c:ext d:ext e:ext f:ext g:ext', 'o(word, tag)', 'word tag')
hist('canonicalizer', 'from scrappybara.normalization.canonicalizer import Canonicalizer', 'Canonicalizer(lemmatize)',
     'lemmatize:ext', 'o(node)', 'node')
hist('fixer', 'from scrappybara.syntax.fixer import Fixer', 'Fixer(adjs, nouns)', 'adjs:ext nouns:ext', 'o(node, tree)',
     'node tree:sa_spec.TreeSpec')
hist('chunker', 'from scrappybara.syntax.chunker import Chunker', 'Chunker()', '', 'o(nodes, tree)',
     'nodes tree:sa_spec.TreeSpec')
hist('nodifier', 'from scrappybara.syntax.nodifier import Nodifier', 'Nodifier()', '', 'o(tokens, tags, tree)',
     'tokens tags tree:sa_spec.TreeSpec')
hist('arg_finder', 'from scrappybara.syntax.arg_finder import ArgFinder', 'ArgFinder()', '', 'o(nodes, tree)',
     'nodes tree:sa_spec.TreeSpec')
hist('extractor', 'from scrappybara.semantics.semantic_tuple_extractor import SemanticTupleExtractor',
     'SemanticTupleExtractor(lm, pps)', 'lm:ext pps:ext', 'o(nodes)', 'nodes', ['inflector', 'stuple'])
hist('logic', 'from scrappybara.pipeline.logic_pipeline import LogicPipeline', 'LogicPipeline(lm)', 'lm:ext',
     'o._logic_process(token_lists, tags, trees, chunk, nb)', 'token_lists tags trees chunk nb',
     ['files', 'components', 'mt'])
hist('pipeline', 'from scrappybara.pipeline.pipeline import Pipeline', 'Pipeline(sentencizer, nb, batch, gpu)',
     'sentencizer:ext nb batch gpu', 'o(texts, chunk)', 'texts chunk', ['files', 'lm', 'parser', 'logicproc', 'mt'])
hist('parser', 'from scrappybara.syntax.parser import Parser', 'Parser(nb, bs)', 'nb bs', 'o(token_lists)', 'token_lists',
     ['models', 'mt'])
hist('tagger', 'from scrappybara.syntax.tagger import Tagger', 'Tagger()', '', 'o.tag(token_lists)', 'token_lists', ['models'])
hist('language_model', 'from scrappybara.langmodel.language_model import LanguageModel', 'LanguageModel(*counts)', 'counts',
     '(len(o), ngram in o, o.top_ngrams(order, limit), o.next_word(text, limit), o.best_token(*tokens, before=before, '
     'after=after), o.best_ngram(*ngrams), o.has_ngram(ngram, mc))', 'ngram ngrams order limit text tokens before after mc')
hist('builder', 'from scrappybara.langmodel.language_model_builder import LanguageModelBuilder',
     'LanguageModelBuilder(mo, sm, nb)', 'mo sm nb', 'o(it)', 'it', ['smoothers', 'store'])
hist('mt', 'from scrappybara.utils.multithreading import run_multithreads', 'None', '', 'run_multithreads(items, process, nb)',
     'items process:ext nb')
hist('divide', 'from scrappybara.utils.mutables import divide_list, make_batches', 'None', '',
     '(divide_list(items, nb), make_batches(items, nb))', 'items nb')
hist('node', 'from scrappybara.syntax.node import Node', 'None', '', '''use(Node(idx, text, tag), x)
def use(n, x):
    r = (list(n.particles), n.is_inf_to, n.is_aff, list(n.and_cconjs), list(n.or_cconjs), list(n.subjs), list(n.objs),
         list(n.exists), list(n.props), list(n.iprops), list(n.iobjs), list(n.adjs), list(n.subjs_verbs_iprops),
         list(n.copulas_props), list(n.pps_props), list(n.agents))
    for l in (n.particles, n.and_cconjs, n.or_cconjs, n.subjs, n.objs, n.exists, n.props, n.iprops, n.iobjs, n.adjs,
              n.subjs_verbs_iprops, n.copulas_props, n.pps_props, n.agents):
        l.append(x)
    n.is_aff = False
    n.is_inf_to = True
    return r''', 'idx text tag x')
hist('tree', 'from scrappybara.utils.tree import Tree', 'None', '', '''use(Tree(root), label, parent, child)
def use(t, label, parent, child):
    t.register_child(label, parent, child)
    return list(t), len(t), t.nodes, t.parent(parent), t.children(child)''', 'root label parent child')
hist('document', 'from scrappybara.pipeline.document import Document\nfrom scrappybara.pipeline.sentence import Sentence',
     'None', '', '''use(Document(), Sentence(), x)
def use(d, s, x):
    d.sentences.append(x)
    s.stuples.append(x)
    return list(d), list(s)''', 'x')
hist('stuple', 'from scrappybara.semantics.semantic_tuple import SemanticTuple\n'
     'from scrappybara.semantics.argument import Argument', 'None', '',
     '(SemanticTuple(a, b, c).flatten(), Argument(w, c, aff).flatten())', 'a b c w aff')
hist('store', 'from scrappybara.langmodel.ngram_store import NgramStore', 'None', '', '''use(NgramStore(), text)
def use(s, text):
    s.make_ngram(text)
    return len(s)''', 'text')
hist('mkn', 'from scrappybara.langmodel.mkn_smoother import MKNSmoother', 'None', '',
     'MKNSmoother(ngrams, order, nb)()', 'ngrams order nb', ['mt'])
hist('mle', 'from scrappybara.langmodel.mle_smoother import MLESmoother', 'None', '',
     'MLESmoother(ngrams, order, nb)()', 'ngrams order nb', ['mt'])
hist('samples', 'from scrappybara.syntax.training_samples import vectorize_sentence, make_masks', 'None', '',
     '(vectorize_sentence(tokens, charset, wordset), make_masks(i, j))', 'tokens charset:ext wordset:ext i j')
hist('labelled', 'from scrappybara.syntax.labelled_data import LabelledSentence', 'None', '', '''use(LabelledSentence(sid, tuples))
def use(s):
    return s.tokens, s.tags, s.deps, s.valid_idxs, s.transitions''', 'sid tuples')


def hist_drivers(name, same=()):
    """(single call, second call on the same object, second call on another object); `same`: arguments that the two calls
    share"""
    imports, ctor, cparams, op, params, cuts, _ = H[name]
    op, _, defs = op.partition('\n')
    names = [p.partition(':')[0] for p in params]
    cnames = [p.partition(':')[0] for p in cparams]
    n1 = [n if n in same else '%s_1' % n for n in names]
    c1 = ['%s_1' % n for n in cnames]
    p1 = [p.replace(n, n + '_1', 1) for n, p in zip(names, params) if n not in same]
    q1 = [p.replace(n, n + '_1', 1) for n, p in zip(cnames, cparams)]
    head = imports + '\n' + defs + '\n' + 'def op(%s):\n    return %s\n' % (', '.join(['o'] + names), op) + \
        'def make(%s):\n    return %s\n' % (', '.join(cnames), ctor)

    def drv(kind, params_, body):
        return dict(name='history:%s:%s' % (name, kind), params=params_, cuts=cuts, opts={'interp': {'history': True}}, attrs={},
                    src=head + 'def entry(%s):\n' % ', '.join(p.partition(':')[0] for p in params_) + body)

    call = 'op(%s)' % ', '.join(['o'] + names)
    call1 = 'op(%s)' % ', '.join(['o'] + n1)
    single = drv('single', ['mark:ext'] + cparams + params,
                 '    o = make(%s)\n    mark()\n    return %s\n' % (', '.join(cnames), call))
    again = drv('again', ['mark:ext'] + cparams + params + p1,
                '    o = make(%s)\n    %s\n    mark()\n    return %s\n' % (', '.join(cnames), call1, call))
    other = drv('other', ['mark:ext'] + cparams + params + p1 + q1,
                '    o = make(%s)\n    %s\n    o = make(%s)\n    mark()\n    return %s\n' % (
                    ', '.join(c1), call1, ', '.join(cnames), call))
    return single, again, other


def after_mark(events):
    n = 0
    for k, e in enumerate(events):
        if e.kind == 'call' and any(x.op == 'sym' and x.args[0] == 'mark' for d in e.data for x in subterms(d)):
            n = k + 1
    return events[n:]


def assumed(events):
    """What is known when the operation starts (the calls before it did not raise): conjunct -> TRUE."""
    for e in events:
        if e.kind == 'call' and any(x.op == 'sym' and x.args[0] == 'mark' for d in e.data for x in subterms(d)):
            cs = e.pc.args if e.pc.op == 'and' else (e.pc,)
            out = {}
            for c in cs:
                if not is_const(c):
                    out[c] = tm.TRUE
                    out[tm.mk_not(c)] = tm.FALSE
            return out
    return {}


def mentions_first(t, names):
    return sorted(set(x.args[0] for x in subterms(t) if x.op == 'sym' and x.args[0].endswith('_1')))


@rule
def history(root):
    out = result('history')
    for name in H:
        try:
            hist_one(root, name, out)
        except AnalysisError as e:
            gone = str(e).split(' ')[1] if str(e).startswith('name ') else ''
            if not gone.startswith('_'):
                out['status'] = 'missing'
            out['notes'].append('%s: %s' % (name, e))
        except Exception as e:
            out['notes'].append('%s: %s %s' % (name, type(e).__name__, str(e)[:200]))
            out['components'].append({'component': name, 'status': 'undecided', 'mode': 'seq', 'size': 0,
                                      'unsure': ['analysis failed: %s' % type(e).__name__]})
    shared_settings(root, out)
    return out


def shared_settings(root, out):
    """No function assigns an attribute of a module: every later call would see it."""
    n = 0
    for rel, tree in modules(root):
        mods = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                mods |= {(a.asname or a.name.split('.')[0]) for a in x.names}
        for q, f in functions(tree):
            if q == '<module>':
                continue
            local = {a.arg for a in f.args.args + f.args.kwonlyargs}
            for x in own(f):
                targets = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else \
                    [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                for t in targets:
                    n += 1
                    if isinstance(t, ast.Attribute) and dotted(t) and dotted(t).split('.')[0] in mods - local:
                        out['components'].append({
                            'component': '%s:%s' % (rel, q), 'mode': 'rule', 'size': 1, 'status': 'violation',
                            'sure': ['%s line %d (%s): the function changes %s, which every later call sees' % (
                                rel, x.lineno, q, dotted(t))]})
    out['stats']['assignments'] = n


def hist_one(root, name, out):
    single, again, other = hist_drivers(name)
    rs = run_driver(single, root)
    note_run(out, rs)
    known = assumed(rs.events)
    mode = 'bag' if name in ('extractor',) else None
    vs, _ = canon(number(subst(rs.value, known)), mode=mode)
    es = effects(after_mark(rs.events), known)
    for kind, d in (('same object', again), ('another object', other)):
        if kind == 'another object' and H[name][1] == 'None':
            continue
        rec = {'component': '%s (%s)' % (name, kind), 'mode': 'seq', 'size': 0}
        try:
            sure, unsure = hist_diff(root, name, kind, d, vs, es, mode, rec)
        except Budget:
            sure, unsure = (['too many cases'], []) if len(H[name][4]) <= 4 else ([], ['too many cases'])
        if sure and len(H[name][4]) <= 4:
            # a result kept from an earlier call may be the right one: the two calls with each set of arguments equal and the
            # others different
            names = [p.partition(':')[0] for p in H[name][4]]
            worse, open_ = [], []
            for k in range(2 ** len(names)):
                same = [n for j, n in enumerate(names) if k >> j & 1]
                tm.DISTINCT[0] = True
                try:
                    dk = hist_drivers(name, same)[1 if kind == 'same object' else 2]
                    worse, more = hist_diff(root, name, kind, dk, vs, es, mode, rec)
                    open_ += more
                except Budget:
                    open_.append('too many cases')
                finally:
                    tm.DISTINCT[0] = False
                if worse:
                    break
            unsure, sure = open_, worse
        rec['status'] = 'violation' if sure else 'undecided' if unsure else 'proved'
        if sure:
            rec['sure'] = sure[:4]
        if unsure:
            rec['unsure'] = unsure[:4]
        out['components'].append(rec)


def hist_diff(root, name, kind, d, vs, es, mode, rec):
    r = run_driver(d, root)
    known = assumed(r.events)
    v, _ = canon(number(subst(r.value, known)), mode=mode)
    e = effects(after_mark(r.events), known)
    sure, unsure = [], []
    for what, a, b, how in (('result', vs, v, mode or 'seq'), ('effects', es, e, 'bag')):
        rec['size'] += len(subterms(b))
        eq, divs = compare(a, b, how)
        if eq:
            continue
        dep = mentions_first(b, None)
        for dv in divs:
            txt = '%s of %s depends on an earlier call (%s): %s' % (what, name, ', '.join(dep) or kind, dv.text(300))
            side = dv.b
            if dep and not imprecise(b) and not (side is not None and imprecise(side)) and dv.kind != 'too big':
                sure.append(txt)
            elif dv.sure and not (imprecise(a) or imprecise(b)):
                sure.append(txt)
            else:
                unsure.append('%s (%s)' % (txt, dv.why))
    return sure, unsure


def effects(events, known={}):
    t = subst(events_seq(events, EFFECTS['effects'] + EFFECTS['files']), known)
    if t is EMPTY:
        return raw('list', raw('rows'))
    return canon(raw('list', t), mode='bag')[0]


# -----------------------------------------------------------------------------------------------------
# disciplines over the syntax trees of the whole package
# -----------------------------------------------------------------------------------------------------

def modules(root):
    base = os.path.join(root, 'scrappybara')
    if not os.path.isdir(base):
        raise AnalysisError('module scrappybara not found')
    for d, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            if f.endswith('.py'):
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                with open(path, encoding='utf-8') as h:
                    yield rel, ast.parse(h.read())


def functions(tree):
    """(qualified name, node) of every function, module bodies included."""
    def visit(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield prefix + n.name, n
                for x in visit(n, prefix + n.name + '.'):
                    yield x
            elif isinstance(n, ast.ClassDef):
                for x in visit(n, prefix + n.name + '.'):
                    yield x
            else:
                for x in visit(n, prefix):
                    yield x
    yield '<module>', tree
    for x in visit(tree, ''):
        yield x


def own(node):
    """Nodes of a function without those of the functions nested in it."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))
        elif isinstance(n, ast.ClassDef):
            continue


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return ''


BROAD = ('Exception', 'BaseException')


@rule
def threads(root):
    """An exception raised by the work that is done for a caller is handed on: a handler around a call of a function value,
    or one that catches everything, raises or keeps the exception object on every path; no finally block leaves early; and
    nothing leaves a loop over the joins before all of them are done."""
    out = result('threads')
    sites = joins = 0

    def violation(rel, q, n, why):
        out['components'].append({
            'component': '%s:%s' % (rel, q), 'mode': 'rule', 'size': 1, 'status': 'violation',
            'sure': ['%s line %d (%s): %s' % (rel, n.lineno, q, why)]})

    for rel, tree in modules(root):
        funcs = list(functions(tree))
        names = {}
        for q, f in funcs:
            names.setdefault(q.split('.')[-1], []).append(f)
        for q, f in funcs:
            out['functions'].append('%s:%s' % (rel, q))
            for n in own(f):
                if isinstance(n, ast.Try):
                    for h in n.handlers:
                        sites += 1
                        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        broad = any(t is None or dotted(t).split('.')[-1] in BROAD for t in types)
                        if (broad or calls_value(n.body, f, names)) and not hands_on(h.body, h.name):
                            violation(rel, q, h, 'the handler catches %s and drops it' % (
                                'every exception' if broad else 'an exception of the function it is given'))
                    for x in leaves(n.finalbody):
                        violation(rel, q, x, 'leaving the finally block drops the exception')
                elif isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and
                                                     dotted(i.context_expr.func).split('.')[-1] == 'suppress'
                                                     for i in n.items):
                    sites += 1
                    if calls_value(n.body, f, names) or any(dotted(a).split('.')[-1] in BROAD for i in n.items
                                                            if isinstance(i.context_expr, ast.Call) for a in i.context_expr.args):
                        violation(rel, q, n, 'the exceptions of the block are suppressed')
                elif isinstance(n, (ast.For, ast.While)) and any(is_join(x) for b in n.body for x in ast.walk(b)):
                    joins += 1
                    for b in n.body:
                        for x in ast.walk(b):
                            if isinstance(x, (ast.Raise, ast.Return)):
                                violation(rel, q, x, 'leaves the loop over the joins while workers may still run')
                            elif isinstance(x, ast.Call) and not is_join(x) and any(
                                    isinstance(y, ast.Raise) for g in named(x, names) for y in own(g)):
                                violation(rel, q, x, 'may raise in the loop over the joins while workers may still run')
    out['stats'] = {'handlers': sites, 'join_loops': joins, 'functions_scanned': len(out['functions'])}
    if not out['components']:
        out['components'].append({'component': 'exception handlers', 'mode': 'rule', 'size': sites + joins, 'status': 'proved'})
    return out


def is_join(x):
    """thread.join() or thread.join(timeout): not the join of strings."""
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and not x.args


def named(call, names):
    """The functions of the module that a call may mean."""
    f = call.func
    if isinstance(f, ast.Name):
        return names.get(f.id, [])
    if isinstance(f, ast.Attribute):
        return names.get(f.attr, [])
    return []


def calls_value(body, f, names, depth=3):
    """Does the code call a function it has been given (a parameter, or an attribute that is no method)?"""
    params = set()
    if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for b in body:
        for x in ast.walk(b):
            if not isinstance(x, ast.Call):
                continue
            g = x.func
            if isinstance(g, ast.Name) and g.id in params and g.id not in names:
                return True
            if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == 'self' and g.attr not in names:
                return True
            if depth and any(calls_value(h.body, h, names, depth - 1) for h in named(x, names)
                             if isinstance(h, (ast.FunctionDef, ast.AsyncFunctionDef)) and h is not f):
                return True
    return False


def hands_on(body, name):
    """Does every path through the handler raise, or keep the exception?"""
    def uses(n):
        return any(isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == 'exc_info'
                   for x in ast.walk(n))
    for n in body:
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, ast.If):
            a, b = hands_on(n.body, name), hands_on(n.orelse, name)
            if a and b or (a or b) and not uses(n.test):
                return True
        elif isinstance(n, (ast.With, ast.Try)):
            if hands_on(n.body, name):
                return True
        elif isinstance(n, (ast.For, ast.While)):
            if hands_on(n.body, name):
                return True
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                dotted(n.value.func).split('.')[0] in ('print', 'logging', 'warnings', 'traceback'):
            continue
        elif uses(n):
            return True
    return False


def leaves(body):
    """return (or break, continue out of the block) in a finally block"""
    def visit(n, loop):
        if isinstance(n, ast.Return) or not loop and isinstance(n, (ast.Break, ast.Continue)):
            yield n
        elif not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            for c in ast.iter_child_nodes(n):
                for x in visit(c, loop or isinstance(n, (ast.For, ast.While))):
                    yield x
    for n in body:
        for x in visit(n, False):
            yield x


TEXT_OPEN = ('open', 'io.open', 'codecs.open')


@rule
def resources(root):
    """Every file the package opens is closed on every path (with statement, finally, or handed to the caller that does),
    and text is read and written with a fixed encoding."""
    out = result('resources')
    total = 0
    returned = set()      # functions that hand an open file to their caller
    found = []
    for rel, tree in modules(root):
        for q, f in functions(tree):
            out['functions'].append('%s:%s' % (rel, q))
            parents = {}
            for n in own(f):
                for c in ast.iter_child_nodes(n):
                    parents[c] = n
            for n in own(f):
                if isinstance(n, ast.Call) and dotted(n.func) in TEXT_OPEN:
                    total += 1
                    found.append((rel, q, f, n, parents, True))
                    if isinstance(parents.get(n), ast.Return):
                        returned.add(q.split('.')[-1])
    for rel, tree in modules(root):
        for q, f in functions(tree):
            parents = {}
            for n in own(f):
                for c in ast.iter_child_nodes(n):
                    parents[c] = n
            for n in own(f):
                if isinstance(n, ast.Call) and dotted(n.func).split('.')[-1] in returned:
                    total += 1
                    found.append((rel, q, f, n, parents, False))
    for rel, q, f, n, parents, direct in found:
        why = []
        if direct:
            why += encoding_of(n)
        why += closing_of(n, f, parents)
        if why:
            out['components'].append({'component': '%s:%s' % (rel, q), 'mode': 'rule', 'size': 1, 'status': 'violation',
                                      'sure': ['%s line %d (%s): %s' % (rel, n.lineno, q, w) for w in why]})
    out['stats'] = {'open_sites': total, 'functions_scanned': len(out['functions'])}
    if not out['components']:
        out['components'].append({'component': 'open files', 'mode': 'rule', 'size': total, 'status': 'proved'})
    return out


def encoding_of(n):
    mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
    if mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str)):
        return []
    if mode is not None and 'b' in mode.value:
        return []
    if any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) > 1:
        return []
    enc = n.args[3] if len(n.args) > 3 else next((k.value for k in n.keywords if k.arg == 'encoding'), None)
    if enc is None or isinstance(enc, ast.Constant) and enc.value is None:
        return ['text file opened with the encoding of the platform']
    if isinstance(enc, ast.Constant) and str(enc.value).lower().replace('_', '-') not in ('utf-8', 'utf8'):
        return ['text file opened with encoding %r' % enc.value]
    return []


def closing_of(n, f, parents):
    p = parents.get(n)
    while isinstance(p, ast.IfExp):
        p = parents.get(p)
    if isinstance(p, ast.withitem) or isinstance(p, ast.Return):
        return []
    if isinstance(p, ast.Call):      # handed to another function or context manager
        up = parents.get(p)
        name = dotted(p.func)
        if isinstance(up, ast.withitem) or name.endswith('closing') or name.endswith('enter_context'):
            return []
        return ['the opened file is never closed']
    target = None
    if isinstance(p, ast.Assign) and len(p.targets) == 1:
        target = p.targets[0]
    elif isinstance(p, (ast.AnnAssign, ast.NamedExpr)):
        target = p.target
    if isinstance(target, ast.Name):
        nm = target.id
        for x in own(f):
            if isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and x.context_expr.id == nm:
                return []
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == nm:
                return []
            if isinstance(x, ast.Try) and any(closes(b, nm) for b in x.finalbody):
                return []
            if isinstance(x, (ast.Yield, ast.YieldFrom)) and isinstance(x.value, ast.Name) and x.value.id == nm:
                return []
        if any(closes(x, nm) for x in own(f)):
            return ['the opened file is not closed when an exception is raised before close()']
        return ['the opened file is never closed']
    if isinstance(target, ast.Attribute):
        return []
    return ['the opened file is never closed']


def closes(node, name):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'close' and
               isinstance(x.func.value, ast.Name) and x.func.value.id == name for x in ast.walk(node))
