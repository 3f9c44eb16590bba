"""Anchors shared by the rules: derived from the public API, not from line numbers."""
import re
from vlib.model import AnalysisError, REPO, SRC
from vlib.effects import Effects, is_write_op, write_target


def strip_ptr(t):
    return re.sub(r'\b(const|struct|class|volatile)\b', '', t).replace('*', '').replace('&', '').strip()


def handle_record(m):
    """record behind the opaque handle that voikkoInit returns"""
    f = m.api('voikkoInit')
    n = strip_ptr(f.d['ret'])
    if n not in m.records:
        raise AnalysisError('handle record %s not found' % n)
    return m.records[n]


def option_fields(m):
    h = handle_record(m)
    return {f['q']: f for f in h['fields'] if f['t'] in ('int', 'bool', 'unsigned int', 'long', 'unsigned long', 'char')}


def effects(m):
    if not hasattr(m, '_effects'):
        m._effects = Effects(m)
    return m._effects


def find_record(m, name):
    c = [r for n, r in m.records.items() if n.split('::')[-1] == name]
    if not c:
        raise AnalysisError('class %s not found' % name)
    return c[0]


def methods(m, rec):
    return [m.fns[k] for k in rec['methods'] if k in m.fns]


def field_ptr_ctx(f, call, target, ctx, field):
    """parameter indices of target that point to `field` at this call, given caller context"""
    out = set()
    for ai, a in enumerate(call.get('args', ())):
        if ai >= len(target.params):
            break
        p = f.path(a)
        if p[0] == 'a' and p[1][0] == 'f' and p[1][2] == field:
            out.add(ai)
        elif p[0] == 'f' and p[2] == field and call.get('pt', [''] * 99)[ai].endswith('&'):
            out.add(ai)
        elif p[0] == 'v' and p[1] in f.params and f.params.index(p[1]) in ctx:
            out.add(ai)
    return frozenset(out)


def writes_field(f, nd, ctx, field):
    """does this node write `field` directly, or through a parameter known to point to it?"""
    if not is_write_op(nd):
        return False
    p = f.path(write_target(nd))
    if p[0] == 'f' and p[2] == field:
        return True
    if p[0] == 'd' and p[1][0] == 'v' and p[1][1] in f.params and f.params.index(p[1][1]) in ctx:
        return True
    if p[0] == 'v' and p[1] in f.params and f.params.index(p[1]) in ctx and f.vars[p[1]]['t'].endswith('&'):
        return True
    return False


def reads_field_expr(f, i, ctx, field, sym_locals=None):
    """does the expression subtree read `field` (directly, through an aliasing parameter, or a local copied from it)?"""
    for nd in f.walk(i):
        if nd['k'] == 'MemberExpr' and nd.get('m') == field:
            return True
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
            v = nd['v']
            if v in f.params and f.params.index(v) in ctx:
                return True
            if sym_locals and v in sym_locals:
                return True
    return False


def locals_copied_from(f, ctx, field):
    s = set()
    for nd in f.nodes:
        if nd['k'] == 'DeclStmt':
            for d in nd['decls']:
                if 'init' in d and 'v' in d and reads_field_expr(f, d['init'], ctx, field):
                    s.add(d['v'])
        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            v = f.var(nd['lhs'])
            if v is not None and reads_field_expr(f, nd['rhs'], ctx, field):
                s.add(v)
    return s


def option_setters(m):
    return [m.api('voikkoSetBooleanOption'), m.api('voikkoSetIntegerOption')]


def sym(m):
    if not hasattr(m, '_sym'):
        from vlib.sym import Sym
        m._sym = Sym(m)
    return m._sym


def fold(m, rep, names, roots, tier):
    """violations of other rules in the functions that `roots` reach also break this property: state that survives an operation changes
    what a later one returns, whatever kind of state it is"""
    import importlib
    from check import Report
    qs = {m.fns[k].q for k in m.reach(roots)}
    for n in names:
        sub = Report(n)
        try:
            importlib.import_module('rules.' + n).run(m, sub, tier)
        except AnalysisError as e:
            rep.note('%s not applied: %s' % (n, e))
            continue
        rep.count('rules_of_other_properties_applied')
        for v in sub.violations:
            w = re.search(r'\((.*)\)$', v['where'])
            if w and w.group(1) in qs:
                rep.bad(v['rule'], v['where'], v['message'], '%s|%s' % (n, v['fingerprint']))
