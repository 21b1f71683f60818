"""Which summaries decide which property: {id: [(driver, components, modes)]}.

Modes: 'seq' (order matters), 'bag' (multiset), 'set'; 'bag:a+b' restricts effects to the attributes a and b."""

V = ['value*']
VR = ['value*', 'raises']
VE = ['value*', 'effects']
VER = ['value*', 'effects', 'raises']

P = {
    'C01': [('pipeline', V, {}), ('pipeline_small', V, {}), ('logic_small', V, {}), ('logic', V, {}), ('document_api', V, {}), ('document_two', V, {}), ('batches', V, {}), ('parser', V, {}),
            ('parser_batches', V, {})],
    'C02': [('mt', VR + ['threads'], {}), ('divide', VR, {}), ('batches', V, {}), ('mle', VE, {}), ('mkn', VER, {})],
    'C03': [('mt', VR + ['threads'], {}), ('mt_fail', VR, {}), ('rule:threads', [], {})],
    'C04': [('rule:history', [], {})],
    'C05': [('pipeline', V, {}), ('vectorize', VR, {}), ('vocab', ['value12', 'value13'], {})],
    'C06': [('extract_pol', V, {'*': 'bag'}), ('extract_small_pol', V, {'*': 'bag'})],
    'C07': [('extract_code', V, {'*': 'bag'}), ('extract_small_code', V, {'*': 'bag'}), ('vocab', ['value10'], {})],
    'C08': [('extract_word', V, {'*': 'bag'}), ('extract_small_word', V, {'*': 'bag'})],
    'C09': [('extract', V, {'*': 'bag'}), ('extract_small', V, {'*': 'bag'})],
    'C10': [('arg_finder', ['effects'], {'effects': 'bag:and_cconjs+or_cconjs+iobjs+exists+props+iprops+adjs+'
                                         'subjs_verbs_iprops+copulas_props+pps_props+agents'}),
            ('node_api', ['value*'], {})],
    'C11': [('arg_finder', ['effects'], {'effects': 'bag:subjs+objs'}), ('node_api', ['value*'], {})],
    'C12': [('arg_finder', ['effects'], {'effects': 'bag:is_aff'}), ('node', ['value0'], {})],
    'C13': [('nodify', VR, {}), ('node', V, {})],
    'C14': [('chunk', VE, {}), ('chunk_small', V, {})],
    'C15': [('fix', VE, {})],
    'C16': [('canon', VE, {})],
    'C17': [('lemma', V, {}), ('text', V, {})],
    'C18': [('standard', V, {})],
    'C19': [('inflect', V, {})],
    'C20': [('lm_queries', VR, {}), ('lm_small', VR, {}), ('context', VR, {}), ('context_small', VR, {})],
    'C21': [('ngram', ['value13'], {}), ('builder', ['files'], {}), ('lm_queries', ['files', 'value0', 'value1', 'value6'], {})],
    'C22': [('ngrams', V, {}), ('ngrams_small', V, {}), ('store', VE, {}), ('store_small', V, {}), ('ngram', ['value0', 'value1', 'value2', 'value5'], {})],
    'C23': [('mkn', VER, {}), ('mle', VE, {}), ('ngram', VR, {})],
    'C24': [('tokenize', V, {}), ('sanitize', V, {})],
    'C25': [('sentencize', VE, {}), ('sentencize_small', VE, {})],
    'C26': [('parse', V, {}), ('parse_steps', V, {}), ('parse_two', V, {}), ('parse_small', V, {}), ('parse_tree', V, {}),
            ('parser', VE, {}), ('parser_batches', VE + ['calls'], {})],
    'C27': [('transitions', V, {}), ('labelled', VR, {}), ('labelled_api', V, {})],
    'C28': [('vectorize', VR, {}), ('vectorize_small', VR, {}), ('masks', V, {}), ('samples', VR, {}), ('tagger', V, {}), ('charset', V, {}),
            ('wordset', V, {})],
    'C29': [('models', V + ['calls'], {}), ('learn', VE + ['calls'], {}), ('training', V, {}), ('samples', V, {}),
            ('vocab', ['value0', 'value1', 'value4', 'value5', 'value9'], {})],
    'C30': [('tree', VR, {}), ('tree_empty', VR, {}), ('tree_small', VR, {}), ('tree_iter', VR, {})],
    'C31': [('files', ['*'], {}), ('charset_save', ['*'], {}), ('wordset_save', ['*'], {}), ('charset', ['*'], {}),
            ('rule:resources', [], {})],
    'C32': [('stuple_api', VR, {}), ('stuple_api_n', VR, {}), ('argument_api', VR, {}), ('document_api', VE, {}), ('document_two', VE, {})],
    'C33': [('logic1', ['value*', 'stages', 'effects'], {'stages': 'seq'}), ('logic', V, {}), ('logic_small', V, {})],
    'C34': [('builder', ['raises', 'value*', 'calls'], {}), ('builder_small', ['raises', 'value*', 'calls'], {})],
}

# the thorough tier repeats every decision with several term orders (see run.py); it needs no further summaries
THOROUGH = {}
