"""Results depend only on dictionary, options and input: no ambient source of variation is consulted by any operation.

Rule (who-may-call, over the call graph): no function reachable from the operations of a handle calls anything whose result depends on
the process locale, environment, clock, random numbers, file system, process or thread identity, or object addresses; numbers are
written through streams only after fixing their locale; files and environment are consulted only by initialisation, dictionary
listing and option setting.
"""
import re
from rules import common as C
from rules import C04, C05
from vlib.effects import is_write_op, write_target

RULE = 'no locale-, environment-, time-, random-, file- or address-dependent call or comparison, and no returned block of unset memory, in any function reachable from the operations of a handle'
ASSUMPTIONS = ['the external hfstospell library is deterministic for a given transducer', 'diagnostics written to stderr are not results',
               'functions from other libraries that are not in the lists of C06.py are taken to be pure functions of their arguments; they are counted in the evidence']

PROP = {
    'id': 'C06', 'title': 'Results do not depend on locale, environment, time or chance',
    'statement': 'For a given dictionary, option values and input, every operation gives the same result in every process: whatever the C or C++ locale, environment variables, working directory, current time, '
                 'memory layout or files present after initialisation. Operations other than initialisation, dictionary listing and option setting do not access files or the environment.',
    'quantifier': {'over': ['configurations', 'inputs', 'histories'], 'text': 'all process environments and locales, all inputs'},
    'why_tests_cant': 'The tests run in one locale and environment; letter case or number formatting that follows the locale changes results only elsewhere (for example in Turkish or comma-decimal locales).',
    'anchors': {'files': ['libvoikko/src/character/SimpleChar.cpp', 'libvoikko/src/character/charset.cpp', 'libvoikko/src/morphology/VfstAnalyzer.cpp', 'libvoikko/src/utils'],
                'mechanism': [{'name': 'own case-mapping and character-class tables', 'where': 'libvoikko/src/character'},
                              {'name': 'own UTF-8 conversion', 'where': 'libvoikko/src/utils/StringUtils.cpp'}],
                'observe_at': ['voikkoSpellCstr', 'voikkoSuggestCstr', 'voikkoHyphenateCstr', 'voikkoAnalyzeWordCstr', 'voikkoNextGrammarErrorCstr']}}

LOCALE = set('''towlower towupper tolower toupper towctrans iswalpha iswupper iswlower iswdigit iswspace iswpunct iswalnum iswctype iswprint iswgraph iswcntrl iswxdigit iswblank
isalpha isupper islower isdigit isspace ispunct isalnum isprint isgraph iscntrl isxdigit isblank tolower_l towlower_l mbstowcs wcstombs mbrtowc wcrtomb mbsrtowcs wcsrtombs mbtowc wctomb mblen mbrlen
strcoll wcscoll strxfrm wcsxfrm strcasecmp strncasecmp wcscasecmp wcsncasecmp strtod strtof strtold wcstod wcstof wcstold atof localeconv setlocale nl_langinfo btowc wctob wcwidth wcswidth
to_wstring stod stof wcsftime strftime iconv iconv_open newlocale uselocale strfmon'''.split())
ENV = set('getenv secure_getenv setenv putenv unsetenv environ getcwd getpwuid getpwnam getlogin getuid geteuid gethostname uname sysconf'.split())
TIME = set('time clock gettimeofday clock_gettime localtime gmtime mktime times getrusage now difftime ftime timespec_get localtime_r gmtime_r'.split())
RANDOM = set('rand srand random srandom drand48 lrand48 mrand48 rand_r random_shuffle shuffle getrandom arc4random getentropy'.split())
FILES = set('fopen fdopen freopen open openat creat stat fstat lstat access opendir readdir scandir mmap read pread fread fgets fgetc getc getwc fgetws getline getdelim popen system dlopen tmpfile mkstemp readlink realpath glob fscanf scanf fwscanf wscanf getchar getwchar'.split())
PROC = set('getpid getppid gettid pthread_self get_id tmpnam thread_id hash_code'.split())
KINDS = [('locale', LOCALE), ('environment', ENV), ('clock', TIME), ('random', RANDOM), ('file system', FILES), ('process identity', PROC)]
PRINTF = {'sprintf': 1, 'snprintf': 2, 'swprintf': 2, 'asprintf': 1, 'vsnprintf': 2}
ARITH = ('double', 'float', 'int', 'long', 'unsigned', 'short', 'bool')


def is_c_function(key, n):
    return key.startswith(n + '(') or key.startswith('std::' + n + '(') or key.startswith('std::' + n + '<') or key.startswith('std::__cxx11::' + n + '(')


def setup_like(f):
    n = f.name.lower()
    return C04.is_setter(f) or 'list' in n or '_dict' in n or 'dicts' in n or 'version' in n


def pointer_compare(f, nd):
    """relational comparison of pointers held by two different objects"""
    if nd['k'] != 'BinaryOperator' or nd.get('op') not in ('<', '>', '<=', '>='):
        return False
    ps = []
    for i in (nd['lhs'], nd['rhs']):
        x = f.nodes[f.strip(i)]
        if x['k'] != 'MemberExpr' or x.get('mk') != 'field' or not x.get('t', '').rstrip(' const').endswith('*'):
            return False
        ps.append(f.path(x['i']))
    return ps[0][2] == ps[1][2] and ps[0][1] != ps[1][1] and 'iterator' not in f.nodes[f.strip(nd['lhs'])].get('t', '')


def raw_block(f, d):
    """local variable initialised with an uninitialised array from new or malloc"""
    x = f.nodes[f.strip(d['init'])]
    if x['k'] == 'CXXNewExpr' and x.get('array') and 'init' not in x:
        return re.match(r'(unsigned |signed )?(char|wchar_t|short|int|long|size_t)\b', d['t']) is not None or d['t'].count('*') > 1
    return x.get('cn') == 'malloc'


def unfilled_returns(f):
    """[(return node, variable)]: an array block is returned on a path on which neither its first element nor a whole range was set"""
    out = []
    blocks = [d for nd in f.nodes if nd['k'] == 'DeclStmt' for d in nd['decls'] if 'init' in d and 'v' in d and raw_block(f, d)]
    for d in blocks:
        v = d['v']
        use = {}
        for nd in f.nodes:
            if nd['k'] == 'DeclRefExpr' and nd.get('v') == v and nd.get('dk') == 'var':
                use[nd['i']] = nd
        fill = set()
        reads_ok = set()
        for i in use:
            x, p = i, f.parent.get(i)
            while p is not None and f.nodes[p]['k'] in ('ImplicitCastExpr', 'ParenExpr'):
                x, p = p, f.parent.get(p)
            pn = f.nodes[p] if p is not None else None
            if pn is None:
                continue
            if pn['k'] == 'ReturnStmt':
                continue
            if pn['k'] == 'ArraySubscriptExpr':
                c = f.const(pn['idx'])
                w = [y for y in f.nodes if is_write_op(y) and f.strip(write_target(y)) == p]
                if w and (c == 0 or (c is None and in_loop(f, p))):
                    fill.add(i)
                    fill |= loop_conds(f, p)
                continue
            if pn['k'] == 'CXXDeleteExpr':
                continue
            fill.add(i)              # handed to a call, assigned, dereferenced, compared: taken as filled
            fill |= loop_conds(f, i)
        start = f.strip(d['init'])
        st, seen = [], set()
        for b, blk in f.blocks.items():
            if start in [e for e in blk['e'] if not isinstance(e, dict)]:
                st.append((b, blk['e'].index(start)))
        while st:
            b, k = st.pop()
            stop = False
            for e in f.blocks[b]['e'][k:]:
                if isinstance(e, dict):
                    continue
                if e in fill:
                    stop = True
                    break
                nd = f.nodes[e]
                if nd['k'] == 'ReturnStmt' and 'val' in nd and f.var(nd['val']) == v:
                    out.append((nd, v))
                    stop = True
                    break
            if not stop:
                for x in f.blocks[b]['s']:
                    if x is not None and x not in seen:
                        seen.add(x)
                        st.append((x, 0))
    return out


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')


def in_loop(f, i):
    while i is not None:
        if f.nodes[i]['k'] in LOOPS:
            return True
        i = f.parent.get(i)
    return False


def loop_conds(f, i):
    """nodes of the conditions of the loops around i: a loop that fills may run zero times for an empty block"""
    out = set()
    while i is not None:
        nd = f.nodes[i]
        if nd['k'] in LOOPS:
            out |= {y['i'] for y in f.walk(nd['cond'])} if 'cond' in nd else {y['i'] for y in f.walk(nd['i'])}
        i = f.parent.get(i)
    return out


def run(m, rep, tier):
    ops = [f for f in m.exported() if not setup_like(f)]
    rep.need(len(ops), 25, 'operations')
    par = m.reach(ops)
    rep.count('operations', len(ops))
    rep.count('functions_reachable', len(par))
    unlisted = set()
    for k in par:
        f = m.fns[k]
        classic = {}
        for nd in f.nodes:
            if nd.get('cn') == 'imbue' and 'obj' in nd and any(x.get('cn') == 'classic' or 'classic' in str(x.get('callee') or '') for x in f.walk(nd['args'][0])):
                r = f.root(f.path(nd['obj']))
                classic[r] = True
        for nd in f.calls():
            if m.targets(nd):
                continue
            key, n = nd.get('callee') or '', nd.get('cn') or ''
            rep.count('external_calls_checked')
            hit = None
            for kind, names in KINDS:
                if n in names and (is_c_function(key, n) or kind == 'clock' and 'chrono' in key or kind == 'process identity' and 'thread' in key):
                    hit = kind
            if not hit and nd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                if re.match(r'std::(basic_ifstream|basic_fstream|basic_ofstream|basic_filebuf|filesystem::)', key):
                    hit = 'file system'
                elif re.match(r'std::random_device', key):
                    hit = 'random'
                elif re.match(r'std::locale::locale\((const char|const std::basic_string|\))', key):
                    hit = 'locale'
                elif re.search(r'(wstring_convert|wbuffer_convert)', key):
                    hit = None
            if not hit and key.startswith('std::filesystem::'):
                hit = 'file system'
            if not hit and re.match(r'std::(ctype|collate|codecvt|numpunct|use_facet|regex_traits)', key) and 'codecvt_utf8' not in key:
                hit = 'locale'
            if hit:
                if hit == 'locale' and n in ('isspace', 'isdigit') and False:
                    continue
                rep.bad('ambient-' + hit.replace(' ', '-'), f.where(nd), '%s, called by an operation on a handle, depends on the %s (%s)' % (n or key, hit, m.chain(par, k)), '%s|%s' % (f.q, n or key.split('(')[0]))
                continue
            # formatted numbers
            if n in PRINTF and is_c_function(key, n):
                fmt = format_string(f, nd, PRINTF[n])
                if fmt is None:
                    rep.note('%s: format string of %s not constant' % (f.q, n))
                elif re.search(r"%[-+ 0#]*\d*(\.\d+)?[lL]?[aAeEfFgG]|%[^a-zA-Z%]*'", fmt):
                    rep.bad('ambient-locale', f.where(nd), '%s formats a number with the decimal separator of the locale' % n, '%s|%s' % (f.q, n))
                elif re.search(r'%l?[sc]', fmt) and ('%ls' in fmt or '%lc' in fmt or n == 'swprintf' and '%s' in fmt):
                    rep.bad('ambient-locale', f.where(nd), '%s converts text with the encoding of the locale' % n, '%s|%s' % (f.q, n))
            if n == 'operator<<' and ('basic_ostream' in key):
                mm = re.search(r'operator<<\((\w[\w ]*)\)', key)
                narg = nd.get('args', ())
                isnum = mm and mm.group(1).strip() in ('double', 'float', 'long double', 'int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long')
                if isnum:
                    root = stream_root(f, nd)
                    if root in classic or root[0] == 'g':
                        rep.sample('number_formatting', '%s fixes the stream locale' % f.q)
                        continue
                    rep.bad('ambient-locale', f.where(nd), 'a number is written to a stream that has the global C++ locale (decimal separator, digit grouping)', '%s|stream' % f.q)
            if n == 'operator>>' and 'basic_istream' in key:
                mm = re.search(r'operator>>\((\w[\w ]*) &\)', key)
                if mm and stream_root(f, nd) not in classic:
                    rep.bad('ambient-locale', f.where(nd), 'a number is parsed from a stream that has the global C++ locale', '%s|stream' % f.q)
            if not key.startswith('std::') and not key.startswith('__gnu_cxx') and nd.get('ext'):
                unlisted.add(n)
        for nd in f.nodes:
            if nd.get('cn') in ('sort', 'stable_sort', 'partial_sort', 'nth_element', 'min_element', 'max_element') and len(nd.get('args', ())) == 2 and nd.get('ext'):
                t = f.nodes[f.strip(nd['args'][0])].get('t', '')
                if re.search(r'__normal_iterator<[^,<>]*\* ?\*|^[^<]*\* ?\*$|iterator<[^<>]*\*>', t):
                    rep.bad('address-order', f.where(nd), 'pointers are sorted by address, so the order of the results depends on memory layout', '%s|sort' % f.q)
        for nd, v in unfilled_returns(f):
            rep.bad('memory-contents', f.where(nd), '%s returns a block of memory on a path on which its contents were never set: the result is whatever the memory held before' % f.q, '%s|%s' % (f.q, f.vars[v].get('n', v)))
        rep.count('returned_blocks_checked', sum(1 for nd in f.nodes if nd['k'] == 'CXXNewExpr' and nd.get('array')))
        # pointer-ordered containers that are iterated
        for nd in f.nodes:
            t = nd.get('t', '')
            if nd.get('cn') in ('begin', 'cbegin') and 'obj' in nd and nd.get('ext'):
                ot = f.nodes[f.strip(nd['obj'])].get('t', '')
                if re.match(r'(const )?std::(set|map|unordered_set|unordered_map|multiset|multimap)<[^,<]*\*', ot) or re.match(r'(const )?std::(set|multiset)<[^<]*\*>', ot):
                    rep.bad('address-order', f.where(nd), 'a container ordered by object addresses is iterated, so the order of the results depends on memory layout', '%s|%s' % (f.q, ot[:40]))
        for nd in f.nodes:
            if nd['k'] in ('CXXReinterpretCastExpr', 'CStyleCastExpr') and 'sub' in nd:
                st = f.nodes[nd['sub']].get('t', '')
                if st.rstrip().endswith('*') and nd.get('t') in ('unsigned long', 'long', 'unsigned int', 'int', 'std::size_t', 'uintptr_t') and not f.isnull(nd['sub']):
                    rep.bad('address-value', f.where(nd), 'an object address is used as a number', f.q)
    # comparators are called by library templates, so they are looked for everywhere
    for f in m.fns.values():
        for nd in f.nodes:
            if nd['k'] == 'BinaryOperator' and nd.get('op') in ('<', '>', '<=', '>='):
                rep.count('comparisons_checked')
                if pointer_compare(f, nd):
                    rep.bad('address-order', f.where(nd), 'two objects are ordered by the addresses they hold, so the order of the results depends on memory layout', '%s|compare' % f.q)
    rep.cov['other_external_functions'] = sorted(unlisted)


def stream_root(f, nd):
    """object at the left end of a chain of << (or >>) operators"""
    i = nd['obj'] if 'obj' in nd else (nd['args'][0] if nd.get('args') else nd['i'])
    for _ in range(64):
        x = f.nodes[f.strip(i)]
        if x.get('cn') in ('operator<<', 'operator>>'):
            i = x['obj'] if 'obj' in x else x['args'][0]
            continue
        break
    return f.root(f.path(i))


def format_string(f, nd, ai):
    if ai >= len(nd.get('args', ())):
        return None
    x = f.nodes[f.strip(nd['args'][ai])]
    return x.get('s') if x['k'] == 'StringLiteral' else None
