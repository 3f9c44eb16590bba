"""Checking operations leave the settings of the handle as the user configured them.

Rule (value flow, interprocedural): the option state is every scalar field the option-setting API writes plus the scalar and pointer
fields of the handle. For every public function that is not an option setter, initialiser or finaliser, each of these fields holds at
every exit the value it had at entry; a temporary override must be undone with the saved value on every path (helpers and guard
objects are followed).
"""
import re
from rules import common as C
from vlib.fieldflow import FieldFlow
from vlib.effects import is_write_op, write_target

RULE = 'value-flow of every option field: at each exit of each non-setter API function the field holds its entry value on all paths'
ASSUMPTIONS = ['no exception leaves the function between override and restore (allocation failure aside)',
               'fields are identified by declaration; a handle is not aliased through another type']

PROP = {
    'id': 'C04', 'title': 'Operations leave the settings as the user configured them',
    'statement': 'Option values of a handle change only through the option-setting functions. Every other operation (spelling, suggestions, hyphenation, analysis, tokenizing, sentence and grammar checking) '
                 'returns with every setting exactly as it found it, whatever the input and whichever way it returns.',
    'quantifier': {'over': ['inputs', 'histories', 'configurations'], 'text': 'all operations, inputs, return paths and option values'},
    'why_tests_cant': 'A setting left overridden shows only when a later call with a setting-sensitive input follows an input that takes the leaking return path.',
    'anchors': {'files': ['libvoikko/src/sentence/Sentence.cpp', 'libvoikko/src/grammar/FinnishAnalysis.cpp', 'libvoikko/src/grammar/HfstAnalysis.cpp', 'libvoikko/src/setup/setup.cpp', 'libvoikko/src/hyphenator'],
                'mechanism': [{'name': 'save / override / restore of the ignore-dot setting', 'where': 'libvoikko/src/sentence/Sentence.cpp, libvoikko/src/grammar/FinnishAnalysis.cpp'},
                              {'name': 'option setters', 'where': 'libvoikko/src/setup/setup.cpp'}],
                'observe_at': ['voikkoSpellCstr', 'voikkoNextSentenceStartCstr', 'voikkoNextGrammarErrorCstr', 'voikkoHyphenateCstr']}}


def is_setter(f):
    n = f.name.lower()
    return ('set' in n and 'option' in n) or re.search(r'_set_(bool|int|string)', n) or 'init' in n or 'terminate' in n


def option_state(m):
    h = C.handle_record(m)
    st = {f['q'] for f in h['fields']}
    eff = C.effects(m)
    R, W, par = eff.transitive(C.option_setters(m))
    caches = {n for n in m.records if 'Cache' in n.split('::')[-1]}
    for fld in W:
        rec = fld.rsplit('::', 1)[0]
        if rec in caches or rec not in m.records or rec == h['n']:
            continue
        # options live in objects the handle points to (the hyphenator); objects built by a setter are not options
        fn, nd = W[fld]
        if m.fns[fn].d.get('ctor') or m.fns[fn].d.get('dtor'):
            continue
        d = [x for x in m.records[rec]['fields'] if x['q'] == fld]
        if d and d[0]['t'].replace('const ', '') in ('int', 'bool', 'unsigned int', 'unsigned long', 'long', 'size_t', 'char', 'short', 'unsigned short'):
            if any(is_long_lived(m, rec, f2) for f2 in h['fields']):
                st.add(fld)
    return st


def is_long_lived(m, rec, hf):
    t = C.strip_ptr(hf['t'])
    return rec == t or rec in m.subclasses(t) or t in m.subclasses(rec)


def run(m, rep, tier):
    opts = option_state(m)
    rep.need(len(opts), 12, 'option fields')
    rep.count('option_fields', len(opts))
    ops = [f for f in m.exported() if not is_setter(f) and not f.file.startswith('tools/')]
    rep.need(len(ops), 25, 'public operations')
    rep.count('public_operations', len(ops))
    rep.assumptions.append('setters/initialisers/finalisers: ' + ', '.join(sorted(f.name for f in m.exported() if is_setter(f))))
    for fld in sorted(opts):
        F = FieldFlow(m, fld)
        writers = [f for f in m.fns.values() if any(is_write_op(nd) and F.is_field(f, write_target(nd)) for nd in f.nodes)]
        addr = [(f, nd) for f in m.fns.values() for nd in f.nodes if nd['k'] == 'UnaryOperator' and nd['op'] == '&' and F.is_field(f, nd['sub'])]
        wk = {f.key for f in writers} | {f.key for f, nd in addr}
        for op in ops:
            if op.key not in F.touch:
                continue
            rep.count('operation_option_pairs')
            par = m.reach([op])
            hit = sorted(wk & set(par))
            if not hit:
                continue
            ex = F.summary(op).exit
            rep.count('override_paths_followed')
            if ex <= {'V0'}:
                rep.sample('restored', '%s in %s' % (fld, op.name))
                continue
            w = None
            for k in hit:
                f = m.fns[k]
                s = F.summary(f).exit
                if s <= {'V0'}:
                    continue
                for nd in f.nodes:
                    if is_write_op(nd) and F.is_field(f, write_target(nd)):
                        w = w or (f, nd)
            f, nd = w or (op, None)
            rep.bad('setting-changed', f.where(nd) if nd else f.where(),
                    '%s can return with %s changed: on some path the value written here is not undone with the saved value (via %s)' % (op.name, fld, m.chain(par, f.key)), '%s|%s' % (f.q, fld))
