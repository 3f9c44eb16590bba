"""Handles share no modifiable state: nothing reachable from the handle-based API touches modifiable static storage.

Rule (effect analysis over the call graph): in every function reachable from the handle-based API no namespace-scope, class-static or
function-static object is modified (assigned, incremented, element-stored, handed to something that may modify it, called through a
non-const member), no object modified anywhere after start-up is read, const tables are not written through casts, and no libc
function with hidden process-wide state is called.
"""
import re
from rules import common as C
from vlib.effects import is_write_op, write_target

RULE = 'no write to (nor read of a written) static object and no process-wide-state libc call in any function reachable from the handle-based API'
ASSUMPTIONS = ['C++11 guarantees for initialisation of function-local statics', 'std::cerr/stderr diagnostics are not results',
               'the deprecated handle-number API (voikko_deprecated.h) is documented as not thread safe and is excluded',
               'external transducer library (hfstospell) objects are per handle']

PROP = {
    'id': 'C05', 'title': 'Handles are isolated: no modifiable state is shared between them',
    'statement': 'Operations on different handles may run at the same time in different threads, and handles may be created and terminated meanwhile, without influencing one another. '
                 'No operation of the handle-based interface modifies state shared by the process: no modifiable global or static data, no process-wide settings.',
    'quantifier': {'over': ['schedules', 'histories'], 'text': 'all interleavings of operations on distinct handles in any number of threads'},
    'why_tests_cant': 'The tests are single-threaded and use one handle at a time; a data race or cross-handle leak appears only under particular interleavings.',
    'anchors': {'files': ['libvoikko/src', 'libvoikko/src/voikko.h'],
                'mechanism': [{'name': 'all state hangs off the handle; tables are const', 'where': 'libvoikko/src/setup/setup.hpp, libvoikko/src/character, libvoikko/src/morphology'}],
                'observe_at': ['all functions of voikko.h']}}

# libc/libstdc++ functions whose result or effect is process-wide state
HOSTILE = {
    'strtok': 'keeps its position in a static buffer', 'setlocale': 'changes the process locale', 'localeconv': 'static buffer',
    'rand': 'process-wide generator', 'srand': 'process-wide generator', 'random': 'process-wide generator', 'drand48': 'process-wide generator', 'lrand48': 'process-wide generator',
    'setenv': 'changes the environment', 'putenv': 'changes the environment', 'unsetenv': 'changes the environment', 'clearenv': 'changes the environment',
    'chdir': 'changes the working directory', 'fchdir': 'changes the working directory', 'umask': 'process-wide', 'signal': 'process-wide', 'sigaction': 'process-wide',
    'asctime': 'static buffer', 'ctime': 'static buffer', 'gmtime': 'static buffer', 'localtime': 'static buffer', 'getpwnam': 'static buffer', 'getpwuid': 'static buffer',
    'tmpnam': 'static buffer', 'strerror': 'static buffer', 'strsignal': 'static buffer', 'ecvt': 'static buffer', 'fcvt': 'static buffer', 'gcvt': 'static buffer',
    'setlogmask': 'process-wide', 'alarm': 'process-wide', 'mblen': 'static shift state', 'mbtowc': 'static shift state', 'wctomb': 'static shift state', 'atexit': 'process-wide',
    'hcreate': 'static table', 'hsearch': 'static table', 'ptsname': 'static buffer', 'getlogin': 'static buffer', 'ttyname': 'static buffer', 'basename': 'static buffer', 'dirname': 'static buffer',
    'setrlimit': 'process-wide', 'set_new_handler': 'process-wide', 'set_terminate': 'process-wide', 'mallopt': 'process-wide',
}
NULLSTATE = {'mbrtowc': 3, 'wcrtomb': 2, 'mbsrtowcs': 3, 'wcsrtombs': 3, 'mbrlen': 2}
STREAMS = {'stderr', 'stdout', 'stdin', 'std::cerr', 'std::cout', 'std::cin', 'std::wcout', 'std::wcerr', 'std::clog', 'std::nothrow', 'std::ignore'}
SYNC = ('std::mutex', 'std::atomic', 'std::once_flag', 'std::shared_mutex', 'std::recursive_mutex')


def deprecated(m, f):
    return any('deprecated' in d['file'] for d in m.decls.get(f.key, ())) or f.file.startswith('compatibility/')


def gname(f, nd):
    if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'global':
        return nd['g']
    if nd['k'] == 'MemberExpr' and nd.get('mk') == 'global':
        return nd['g']
    return None


def accesses(m, f):
    """[(global key, node, 'r'|'w', how)]"""
    out = []
    eff = C.effects(m)
    for nd in f.nodes:
        g = gname(f, nd)
        if g is None:
            continue
        i = nd['i']
        how = None
        # climb through element/member/deref selections of the same object
        p = f.parent.get(i)
        through_ptr = False
        casted = False
        decl = m.globals.get(g, {})
        isptr = bool(re.search(r'\*\s*(const)?$', decl.get('t', '').strip()))
        while p is not None:
            pn = f.nodes[p]
            k = pn['k']
            if k == 'ArraySubscriptExpr' and f.strip(pn['base']) == i or k == 'MemberExpr' and pn.get('mk') == 'field' or (k == 'UnaryOperator' and pn['op'] == '*'):
                if isptr and k != 'MemberExpr':
                    through_ptr = True
                i = p
                p = f.parent.get(p)
                continue
            if k in ('ParenExpr', 'ImplicitCastExpr'):
                i = p
                p = f.parent.get(p)
                continue
            if k in ('CStyleCastExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr'):
                if 'const' in f.nodes[pn['sub']].get('t', '') and 'const' not in pn.get('t', '') and ('*' in pn.get('t', '') or '&' in pn.get('t', '')):
                    casted = True
                i = p
                p = f.parent.get(p)
                continue
            break
        pn = f.nodes[p] if p is not None else None
        if pn is not None:
            if is_write_op(pn) and f.strip(write_target(pn)) == f.strip(i):
                how = 'assigned'
            elif pn['k'] == 'UnaryOperator' and pn['op'] == '&':
                gp = f.parent.get(p)
                how = escape(m, f, eff, pn['i'], gp, casted, addr=True)
            elif pn.get('obj') is not None and f.strip(pn['obj']) == f.strip(i) and pn.get('callee'):
                key = pn['callee']
                if not key.rstrip().endswith('const') and not pn.get('cn') in ('begin', 'end', 'find', 'size', 'empty', 'at', 'c_str', 'data', 'length', 'cbegin', 'cend', 'count', 'operator bool', 'lower_bound', 'upper_bound', 'rbegin', 'rend'):
                    if pn.get('cn') == 'operator[]' and 'map' not in key:
                        # element access: climb once more
                        q = f.parent.get(p)
                        if q is not None and is_write_op(f.nodes[q]) and f.strip(write_target(f.nodes[q])) == p:
                            how = 'element assigned'
                    elif not decl.get('const') and not (m.targets(pn) and not any(eff.direct(t)[1] for t in m.targets(pn))):
                        how = 'modified through %s' % pn.get('cn')
            else:
                how = escape(m, f, eff, i, p, casted, addr=False)
        elif pn is None:
            for ini in f.d.get('inits', []):
                pass
        if how is None and re.search(r'(unique_ptr|shared_ptr)<(?!const )', decl.get('t', '')):
            how = 'a shared modifiable object'
        if casted and how is None and pn is not None and pn['k'] == 'DeclStmt':
            how = 'const cast away'
        out.append((g, nd, 'w' if how else 'r', how))
    return out


def modifiable(t):
    """does a value of this declared type give modifiable access to what it points/refers to?"""
    t = t.strip()
    if t.endswith('&'):
        return not t.startswith('const ') and 'const &' not in t
    if t.endswith('*'):
        inner = t[:-1].strip()
        return not inner.startswith('const ') and not inner.endswith('const')
    return False


def escape(m, f, eff, i, p, casted, addr):
    """is the object handed on in a modifiable way? returns how, or None"""
    if p is None:
        return None
    pn = f.nodes[p]
    nd = f.nodes[i]
    t = re.sub(r'\*\s*const$', '*', nd.get('t', '').strip())
    arr = '[' in t or nd.get('decay')
    up, j = p, i
    while up is not None and f.nodes[up]['k'] in ('ParenExpr', 'ImplicitCastExpr'):
        j, up = up, f.parent.get(up)
    if up is not None and (addr or arr or t.endswith('*')):
        un = f.nodes[up]
        if un['k'] == 'ConditionalOperator' and f.strip(un['cond']) != f.strip(i) or un['k'] == 'BinaryOperator' and un['op'] in ('+', '-', ',') and un.get('t', '').endswith('*'):
            return escape(m, f, eff, up, f.parent.get(up), casted, addr)
    ptrval = t.rstrip().endswith('*') and modifiable(t) and '(' not in t
    if ptrval and not addr:
        # the value of a static pointer to modifiable data: handing it on shares the pointee
        if pn['k'] == 'DeclStmt' or pn['k'] == 'ReturnStmt' and modifiable(f.d['ret']) or \
                pn['k'] == 'BinaryOperator' and pn.get('op') == '=' and f.strip(pn['rhs']) == f.strip(i):
            return 'handed out as a shared modifiable object'
        if pn.get('callee') and i in pn.get('args', ()):
            ai = pn['args'].index(i)
            pts = pn.get('pt', [])
            if ai < len(pts) and modifiable(pts[ai]) and eff.arg_written(f, pn, ai):
                return 'passed to %s, which may modify what it points to' % (pn.get('cn') or pn['callee'])
            return None
    if pn.get('callee') and i in pn.get('args', ()):
        ai = pn['args'].index(i)
        pts = pn.get('pt', [])
        pt = pts[ai] if ai < len(pts) else ''
        if not (addr or arr or pt.endswith('&')):
            return None     # passed by value
        if modifiable(pt) and eff.arg_written(f, pn, ai):
            return 'passed to %s, which may modify it' % (pn.get('cn') or pn['callee'])
        return None
    if pn['k'] == 'DeclStmt':
        for d in pn['decls']:
            if 'init' in d and f.strip(d['init']) == f.strip(i):
                if (d['t'].endswith('&') or addr or arr) and modifiable(d['t']):
                    # local alias: is anything written through it?
                    v = d.get('v')
                    for x in f.nodes:
                        if is_write_op(x):
                            q = f.path(write_target(x))
                            r = f.root(q)
                            if r == ('v', v) and (q[0] in ('d', 'e', 'f') or d['t'].endswith('&')):
                                return 'modified through %s' % d.get('n', 'a local alias')
                        if x.get('callee') and 'args' in x:
                            for ai, a in enumerate(x['args']):
                                if f.root(f.path(a)) == ('v', v) and eff.arg_written(f, x, ai):
                                    return 'passed to %s, which may modify it' % (x.get('cn') or x['callee'])
                        if x.get('callee') and 'obj' in x and f.root(f.path(x['obj'])) == ('v', v) and not x['callee'].rstrip().endswith('const') and x.get('ext') and \
                                x.get('cn') in ('push_back', 'insert', 'clear', 'erase', 'assign', 'operator=', 'operator[]', 'resize', 'push', 'pop', 'emplace', 'append', 'emplace_back'):
                            return 'modified through %s' % x.get('cn')
        return None
    if pn['k'] == 'ReturnStmt' and (addr or arr) and modifiable(f.d['ret']):
        return 'returned for modification'
    if pn['k'] == 'ReturnStmt' and f.d['ret'].endswith('&') and modifiable(f.d['ret']):
        return 'returned by modifiable reference'
    if pn['k'] == 'BinaryOperator' and pn.get('op') == '=' and (addr or arr) and f.strip(pn['rhs']) == f.strip(i) and modifiable(pn.get('t', '')):
        return 'stored for later modification'
    return None


def run(m, rep, tier):
    roots = [f for f in m.exported() if not deprecated(m, f)]
    rep.need(len(roots), 35, 'handle-based API functions')
    par = m.reach(roots)
    rep.count('api_functions', len(roots))
    rep.count('functions_reachable', len(par))
    acc = {}
    for k, f in m.fns.items():
        if f.file.startswith('tools/'):
            continue
        acc[k] = accesses(m, f)
    written = {}
    for k, l in acc.items():
        for g, nd, rw, how in l:
            if rw == 'w' and g not in STREAMS:
                written.setdefault(g, []).append((k, nd, how))
    nglob = set()
    for k in par:
        f = m.fns[k]
        for g, nd, rw, how in acc.get(k, ()):
            d = m.globals.get(g, {})
            nglob.add(g)
            rep.count('static_object_uses')
            if g in STREAMS or g.startswith('std::') or d.get('tls'):
                continue
            if any(s in d.get('t', '') for s in SYNC):
                continue
            if rw == 'w':
                rep.bad('shared-write', f.where(nd), 'static object %s is %s in an operation on a handle (reachable: %s)' % (g, how, m.chain(par, k)), '%s|%s' % (f.q, g.split('@')[0]))
            elif g in written and not d.get('const'):
                wk, wn, whow = written[g][0]
                rep.bad('shared-read', f.where(nd), 'static object %s, which is %s at %s, is used by an operation on a handle (%s)' % (g, whow, m.fns[wk].where(wn), m.chain(par, k)), '%s|%s' % (f.q, g.split('@')[0]))
        for nd in f.calls():
            if m.targets(nd):
                continue
            n = nd.get('cn')
            key = nd.get('callee') or ''
            rep.count('external_calls')
            if n in HOSTILE and (key.startswith(n + '(') or key.startswith('std::' + n + '(')):
                if n in ('rand', 'random') and len(nd.get('args', ())) > 0:
                    continue
                rep.bad('process-state', f.where(nd), '%s() is called on behalf of a handle: %s (%s)' % (n, HOSTILE[n], m.chain(par, k)), '%s|%s' % (f.q, n))
            elif n in NULLSTATE and (key.startswith(n + '(') or key.startswith('std::' + n + '(')) and len(nd['args']) > NULLSTATE[n] and f.isnull(nd['args'][NULLSTATE[n]]):
                rep.bad('process-state', f.where(nd), '%s() is called with its static shift state' % n, '%s|%s' % (f.q, n))
            elif key.startswith('std::locale::global'):
                rep.bad('process-state', f.where(nd), 'the process-wide C++ locale is changed', f.q)
    rep.count('static_objects_used', len(nglob))
    rep.need(len(nglob), 8, 'static tables used by the API')
    # positive control: the excluded compatibility layer does keep its handles in a static array; the rule must see that
    ctl = [g for g, l in written.items() if any(m.fns[k].file.startswith('compatibility/') for k, _, _ in l)]
    dep = [f for f in m.exported() if deprecated(m, f)]
    if dep and not ctl:
        rep.note('positive control: no static object written by the deprecated layer')
    else:
        rep.sample('positive_control', ', '.join(ctl))
