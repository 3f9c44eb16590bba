"""Options: what the header documents against what the setters, the initialisation and the operations do.

The option setters and voikkoInit are evaluated by constant propagation over all paths (helpers and virtual setters inlined), once per
documented option, value and starting state. A carrier of an option is a field whose final value is decided by the option value alone.
Rule 1: every documented option is settable: the setter returns 1 and the option has a carrier; any true value acts like 1.
Rule 2: an undocumented option is refused (0) and changes nothing; a refused call changes nothing.
Rule 3: setting an option does not change a carrier of another option.
Rule 4: after voikkoInit the carriers have the values that setting the documented default gives.
Rule 5: the operations that the documentation says an option affects read a carrier of it.
Rule 6: integer options take the given value (cache size: negative means no cache).
"""
import os
import re
from rules import common as C
from vlib.cprop import CProp, truth
from vlib.model import AnalysisError, SRC

RULE = 'constant propagation of the option setters and voikkoInit over all paths, compared with the options and defaults documented in voikko_defines.h; reachability of the reads of each option carrier from the operations it is documented to affect'
ASSUMPTIONS = ['the header comments are the specification of defaults and scope', 'component fields are identified by declaration']

PROP = {
    'id': 'C10', 'title': 'Options can be set and reset, independently, from their documented defaults',
    'statement': 'For every option documented in voikko_defines.h: a new handle behaves as if the option had been set to its documented default; setting it succeeds (returns 1) and takes effect whatever the '
                 'previous value was, any non-zero value meaning true for boolean options; setting one option never changes another; an integer option takes exactly the given value (a negative cache size removes the '
                 'cache). Unknown option numbers are refused with 0 and change nothing. Each option is consulted by the operations it is documented to affect (for example the trailing dot option by spelling, '
                 'hyphenation and tokenizing).',
    'quantifier': {'over': ['histories', 'configurations'], 'text': 'all options, values and previous settings'},
    'why_tests_cant': 'Tests set options on fresh handles one at a time; combinations, resetting and defaults of options that the tests never touch are not sampled.',
    'anchors': {'files': ['libvoikko/src/voikko_defines.h', 'libvoikko/src/setup/setup.cpp', 'libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp',
                          'libvoikko/src/spellchecker/suggestion/SuggestionGeneratorFactory.cpp', 'libvoikko/src/spellchecker/SpellerCache.cpp'],
                'mechanism': [{'name': 'option setters and defaults', 'where': 'libvoikko/src/setup/setup.cpp'}],
                'observe_at': ['voikkoSetBooleanOption', 'voikkoSetIntegerOption', 'voikkoInit']}}

# operations that the documentation of an option names
SCOPE = {
    'VOIKKO_OPT_IGNORE_DOT': ['voikkoSpellUcs4', 'voikkoHyphenateUcs4', 'voikkoNextTokenUcs4'],
    'VOIKKO_OPT_IGNORE_NUMBERS': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_IGNORE_UPPERCASE': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_ACCEPT_ALL_UPPERCASE': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_NO_UGLY_HYPHENATION': ['voikkoHyphenateUcs4'],
    'VOIKKO_OPT_OCR_SUGGESTIONS': ['voikkoSuggestUcs4'],
    'VOIKKO_OPT_IGNORE_NONWORDS': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_ACCEPT_MISSING_HYPHENS': ['voikkoSpellUcs4'],
    'VOIKKO_OPT_ACCEPT_TITLES_IN_GC': ['voikkoNextGrammarErrorUcs4'],
    'VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC': ['voikkoNextGrammarErrorUcs4'],
    'VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS': ['voikkoHyphenateUcs4'],
    'VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC': ['voikkoNextGrammarErrorUcs4'],
    'VOIKKO_MIN_HYPHENATED_WORD_LENGTH': ['voikkoHyphenateUcs4'],
    'VOIKKO_SPELLER_CACHE_SIZE': ['voikkoSpellUcs4'],
}


def documented():
    """[(name, number, 'bool' or 'int', default)] from voikko_defines.h"""
    with open(os.path.join(SRC, 'voikko_defines.h'), encoding='utf-8') as f:
        s = f.read()
    out = []
    kind = None
    for mo in re.finditer(r'/\*(.*?)\*/|#define\s+(VOIKKO_\w+)\s+(-?\d+)', s, re.S):
        if mo.group(1) is not None:
            c = mo.group(1)
            if re.search(r'Boolean options', c):
                kind = 'bool'
            elif re.search(r'Integer options', c):
                kind = 'int'
            d = re.search(r'Default:\s*(true|false|-?\d+)', c)
            default = None if not d else {'true': 1, 'false': 0}.get(d.group(1), None) if d.group(1) in ('true', 'false') else int(d.group(1))
            continue
        if kind is not None:
            out.append((mo.group(2), int(mo.group(3)), kind, default))
            default = None
    return out


INTS = ('int', 'bool', 'unsigned int', 'unsigned long', 'long', 'size_t', 'char', 'short', 'unsigned short')


def run(m, rep, tier):
    opts = documented()
    rep.need(len(opts), 14, 'documented options')
    h = C.handle_record(m)
    eff = C.effects(m)
    sb, si = C.option_setters(m)
    init = m.api('voikkoInit')
    comp = {C.strip_ptr(x['t']): x['q'] for x in h['fields'] if x['t'].rstrip().endswith('*')}
    track = {x['q'] for x in h['fields'] if x['t'].replace('const ', '') in INTS or x['t'].rstrip().endswith('*')}
    for t in comp:
        for r in [t] + sorted(m.subclasses(t)):
            if r in m.records:
                track |= {x['q'] for x in m.records[r]['fields'] if x['t'].replace('const ', '') in INTS}
    wr = {}

    def inline(g):
        if g.key not in wr:
            wr[g.key] = len(g.blocks) <= 40 and (bool(set(eff.transitive([g])[1]) & track) or C.strip_ptr(g.d.get('ret', '')) in comp or bool(eff.param_writes[g.key]) and len(g.blocks) <= 12 or reads_only(g))
        return wr[g.key]

    def reads_only(g):
        return len(g.blocks) <= 6
    cp = CProp(m, eff, inline=inline, depth=6, track=track, maxpaths=6000)

    def proj(s):
        return {k: v for k, v in s.items() if isinstance(k, str) and k in track}

    def outcome(f, opt, val, start):
        """(set of returned values, field -> set of final values over successful paths, fields changed on refused paths)"""
        rets, fin, ch = set(), {}, set()
        res = cp.run(f, {f.params[1]: opt, f.params[2]: val}, start)
        if not res:
            raise AnalysisError('no path through %s for option %s' % (f.q, opt))
        ok = []
        for r, s in res:
            rets.add(r)
            p = proj(s)
            if s.get('#unk'):
                p = {q: None for q in track}
            if r == 0:
                ch |= {k for k in track if k in s.get('#w', ()) and p.get(k) != start.get(k) and not s.get('#unk')}
            else:
                ok.append(p)
        for k in track:
            fin[k] = {norm(p[k] if k in p else start.get(k)) for p in ok}
        return rets, fin, ch

    # starting states
    def start(v):
        s = {}
        for q in track:
            owner = q.rsplit('::', 1)[0]
            d = [x for x in m.records[owner]['fields'] if x['q'] == q]
            t = d[0]['t'].replace('const ', '') if d else ''
            if t in INTS:
                s[q] = v
            elif t.endswith('*'):
                s[q] = ('ptr', 'before%d' % v, ())
        return s
    cacheq = [q for t, q in comp.items() if t.endswith('SpellerCache')]
    starts = [start(0), start(1)]
    for q in cacheq:
        starts.append(dict(start(1), **{q: 0}))
    carriers, maybe, effective = {}, {}, {}
    for name, num, kind, default in opts:
        f = sb if kind == 'bool' else si
        vals = (0, 1, 2, -1) if kind == 'bool' else (0, 2, 3, 7, -1, -5)
        if 'MIN_HYPHENATED' in name:
            # every boundary that the setters themselves distinguish
            cs = {nd['ev'] for k2 in m.reach([si]) for nd in m.fns[k2].nodes if nd['k'] in ('IntegerLiteral', 'UnaryOperator') and isinstance(nd.get('ev'), int)
                  and m.fns[k2].file == si.file} if hasattr(si, 'file') else set()
            vals = tuple(sorted({0, 1, 2, 3, 7, 100, 255, 256, 1000, 100000} | {x for c in cs for x in (c - 1, c, c + 1) if 0 <= x < 1 << 31}))
        res = {}
        for v in vals:
            for k, st in enumerate(starts):
                rets, fin, ch = outcome(f, num, v, st)
                res[v, k] = fin
                rep.count('setter evaluations')
                if None not in rets and 1 not in rets:
                    rep.bad('not-settable', f.where(), '%s: setting %s to %d never returns 1 (returns %s)' % (f.q, name, v, sorted(rets)), '%s|settable' % name)
                if kind == 'bool' or num != 9:
                    pass
                for q in sorted(ch):
                    rep.bad('refused-but-changed', f.where(), '%s: a refused setting of %s to %d leaves %s changed' % (f.q, name, v, q), '%s|%s|refused' % (name, q))
        det = {}
        und = set()
        for q in track:
            sets = {v: [res[v, k][q] for k in range(len(starts))] for v in vals}
            if any(None in s for l in sets.values() for s in l):
                und.add(q)
                continue
            if kind == 'int' and q in cacheq:
                # the component may stay as it is when the size does not change
                tr = {v: {truth(x) for s in l for x in s} for v, l in sets.items()}
                if all(len(t) == 1 for t in tr.values()):
                    det[q] = {v: next(iter(t)) for v, t in tr.items()}
                elif 'CACHE' in name:
                    for v, t in sorted(tr.items()):
                        if (v < 0) in t:
                            rep.bad('integer-value', f.where(), '%s: %s set to %d can leave %s %s' % (f.q, name, v, q, 'in place' if v < 0 else 'null'), '%s|%s|%d' % (name, q, v))
                continue
            if all(all(s == l[0] for s in l) and l[0] for l in sets.values()):
                det[q] = {v: frozenset(l[0]) for v, l in sets.items()}
        car = {q for q, d in det.items() if len(set(d.values())) > 1}
        if kind == 'int':
            # size parameter of the cache: compared where a cache exists
            for q in track - car - und:
                if all(v < 0 or all(res[v, k][q] == {v} for k in range(len(starts))) for v in vals):
                    car.add(q)
        if kind == 'bool':
            for q in sorted(car):
                for v in (2, -1):
                    if det[q][v] != det[q][1]:
                        rep.bad('truth-value', f.where(), '%s: %s set to %d gives %s other than for 1' % (f.q, name, v, q), '%s|%s|truth' % (name, q))
        else:
            for q in sorted(car):
                if q in cacheq:
                    for v in vals:
                        if det[q][v] != (v >= 0):
                            rep.bad('integer-value', f.where(), '%s: %s set to %d leaves %s %s' % (f.q, name, v, q, 'set' if det[q][v] else 'null'), '%s|%s|%d' % (name, q, v))
                elif q in det:
                    for v in vals:
                        if det[q][v] != frozenset([v]) and v >= 2:
                            rep.bad('integer-value', f.where(), '%s: %s set to %d stores %s in %s' % (f.q, name, v, sorted(map(str, det[q][v])), q), '%s|%s|value' % (name, q))
            if num == 17 or 'CACHE' in name:
                if not any(q not in cacheq for q in car) and not und:
                    rep.bad('integer-value', f.where(), '%s: the cache after setting %s does not have the given size for every previous state' % (f.q, name), '%s|size' % name)
        if 'OCR' in name:
            for q in sorted(car):
                t0, t1 = ({str(x[1]) for x in det[q][v] if isinstance(x, tuple)} for v in (0, 1))
                if any('Ocr' in x for x in t0) and not any('Ocr' in x for x in t1):
                    rep.bad('inverted', f.where(), '%s: %s set to false gives the OCR suggestion strategy and set to true does not' % (f.q, name), '%s|inverted' % name)
        if not car and not und:
            rep.bad('no-effect', f.where(), '%s: no setting is decided by the value of %s alone (a previous value can survive, or nothing is stored)' % (f.q, name), '%s|carrier' % name)
        carriers[name], maybe[name] = car, und
        effective[name] = (f, res, vals, det)
        rep.sample('carriers', '%s: %s' % (name, ', '.join(sorted(car))), 20)
        rep.count('options')
    # independence
    for name, num, kind, default in opts:
        f, res, vals, det = effective[name]
        for other in carriers:
            if other == name:
                continue
            for q in sorted(carriers[other]):
                shared = q in carriers[name]
                changed = any(res[v, k][q] - {norm(starts[k].get(q))} - {None} for v in vals for k in range(len(starts)))
                if shared or changed:
                    rep.bad('not-independent', f.where(), '%s: setting %s changes %s, which carries %s' % (f.q, name, q, other), '%s|%s|%s' % (name, other, q))
                rep.count('independence obligations')
    # undocumented numbers
    nums = {'bool': {n for _, n, k, _ in opts if k == 'bool'}, 'int': {n for _, n, k, _ in opts if k == 'int'}}
    top = max(nums['bool'] | nums['int'])
    for f, kind in ((sb, 'bool'), (si, 'int')):
        for n in list(range(-1, top + 4)) + [255, 100000]:
            if n in nums[kind]:
                continue
            for v in (0, 1):
                rets, fin, ch = outcome(f, n, v, starts[0])
                rep.count('undocumented numbers tried')
                if rets - {0, None}:
                    rep.bad('unknown-accepted', f.where(), '%s: accepts undocumented option %d (returns %s)' % (f.q, n, sorted(map(str, rets))), '%s|%d' % (f.name, n))
                if ch:
                    rep.bad('unknown-accepted', f.where(), '%s: undocumented option %d changes %s' % (f.q, n, sorted(ch)), '%s|%d|w' % (f.name, n))
    # defaults
    res = cp.run(init, {init.params[1]: ('ptr', 'lang', ())}, {q: None for q in track})
    done = [proj(s) for r, s in res if truth(r)]
    rep.need(len(done), 1, 'successful paths of voikkoInit')
    rep.count('paths of voikkoInit', len(res))
    for name, num, kind, default in opts:
        if default is None:
            rep.bad('no-default', 'libvoikko/src/voikko_defines.h', '%s has no documented default' % name, name + '|nodefault')
            continue
        f, res, vals, det = effective[name]
        for q in sorted(carriers[name]):
            if q in cacheq and kind == 'int':
                want = {default >= 0}
                got = {truth(p.get(q)) for p in done}
            else:
                want = set(det[q][default]) if q in det and default in det[q] else {default}
                got = {p.get(q) for p in done}
                owner = q.rsplit('::', 1)[0]
                if owner != h['n']:
                    # the component of the handle is of this class only on some paths; other objects of the class may exist
                    slots = [cq for t, cq in comp.items() if t == owner or owner in m.subclasses(t)]
                    got = {p.get(q) for p in done if any(isinstance(p.get(cq), tuple) and p[cq][1] == owner for cq in slots)} or {None}
            rep.count('default obligations')
            g2, w2 = {norm(x) for x in got}, {norm(x) for x in want}
            if None in got:
                if kind == 'bool' and q.rsplit('::', 1)[0] == h['n'] and q not in comp.values() and all(q not in p or p[q] is None for p in done):
                    rep.bad('default', init.where(), '%s: %s (%s) is not initialised' % (init.q, q, name), '%s|%s|default' % (name, q))
                else:
                    rep.count('default not resolved')
                    rep.note('default of %s not resolved for %s' % (name, q))
                continue
            if not g2 <= w2 and not (isinstance(default, int) and kind == 'bool' and all(isinstance(x, int) for x in g2 | w2) and {bool(x) for x in g2} == {bool(x) for x in w2}):
                rep.bad('default', init.where(), '%s: %s starts as %s although the default of %s is documented as %s (%s)' % (
                    init.q, q, sorted(map(str, g2)), name, default, sorted(map(str, w2))), '%s|%s|default' % (name, q))
    # operations consult the options
    for name, num, kind, default in opts:
        ops = SCOPE.get(name)
        if ops is None:
            rep.note('no documented scope known for ' + name)
            continue
        for op in ops:
            f = m.api(op)
            R = eff.transitive([f])[0]
            rep.count('operation obligations')
            if not (carriers[name] | maybe[name]) & set(R) and (carriers[name] or not maybe[name]):
                rep.bad('not-consulted', f.where(), '%s does not consult %s: none of %s is read on any path from it' % (op, name, sorted(carriers[name]) or 'its settings'), '%s|%s|read' % (name, op))
    rep.cov['paths cut'] = cp.cut


def norm(x):
    if isinstance(x, tuple) and x[0] == 'ptr':
        return ('ptr', x[1])
    return x
