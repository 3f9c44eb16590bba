"""Exception flow: which exception types can leave a function, through explicit throws, calls and handlers."""


# standard and third-party functions that report errors by exception (allocation failure is left aside)
EXT = {'at': 'std::out_of_range', 'substr': 'std::out_of_range', 'erase': 'std::out_of_range', 'insert': 'std::out_of_range', 'replace': 'std::out_of_range', 'compare': 'std::out_of_range',
       'stoi': 'std::invalid_argument', 'stol': 'std::invalid_argument', 'stoul': 'std::invalid_argument',
       'stod': 'std::invalid_argument', 'stof': 'std::invalid_argument', 'stoll': 'std::invalid_argument', 'stoull': 'std::invalid_argument'}
# third-party functions: every type they document or are known to throw
EXTQ = {'hfst_ospell::ZHfstOspeller::read_zhfst': ('hfst_ospell::ZHfstZipReadingError', 'hfst_ospell::ZHfstTemporaryWritingError', 'hfst_ospell::ZHfstMetaDataParsingError', 'hfst_ospell::ZHfstXmlParsingError',
                                                   'hfst_ospell::AlphabetTranslationException', 'hfst_ospell::OspellException'),
        'hfst_ospell::Transducer::Transducer': ('hfst_ospell::OspellException',),
        'std::locale::locale(const char': ('std::runtime_error',), 'std::locale::locale(const std::basic_string': ('std::runtime_error',),
        'std::basic_ios<char>::exceptions(std::': ('std::ios_base::failure',), 'std::basic_regex<': ('std::regex_error',),
        'std::thread::thread<': ('std::system_error',), 'std::filesystem::': ('std::filesystem::filesystem_error',)}
POSITIONAL = ('at', 'substr', 'erase', 'insert', 'replace', 'compare')


class Throws:
    def __init__(self, m, safe=None):
        self.m = m
        self.safe = safe        # (function, node) -> is this positional string or container access within bounds?
        self.stopped = {}       # functions that nothing may leave: what reaches their end all the same
        self.memo = {f.key: {} for f in m.fns.values()}     # type -> (node, callee key or None)
        ch = True
        while ch:
            ch = False
            for f in m.fns.values():
                r = self.compute(f)
                if set(r) - set(self.memo[f.key]):
                    self.memo[f.key].update({k: v for k, v in r.items() if k not in self.memo[f.key]})
                    ch = True

    def of(self, f):
        return self.memo[f.key]

    def node_types(self, f, nd):
        """type -> callee key of what evaluating this single node may throw"""
        r = {}
        if nd['k'] == 'CXXThrowExpr':
            r[nd.get('tt') or 'rethrow'] = None
        elif nd.get('callee') or nd['k'] == 'CXXDeleteExpr' and nd.get('dtor'):
            ts = self.m.targets(nd) if nd.get('callee') else [self.m.fns[k] for k in ([nd['dtor']] + list(self.m.overriders.get(nd['dtor'], ()))) if k in self.m.fns]
            for t in ts:
                for x in self.memo[t.key]:
                    r.setdefault(x, t.key)
            if nd.get('callee') and not ts and nd.get('cn') in EXT:
                k = str(nd['callee'])
                if k.startswith('std::') and not (nd['cn'] in POSITIONAL and (not positional(nd) or self.safe and self.safe(f, nd))):
                    r.setdefault(EXT[nd['cn']], None)
            if nd.get('callee') and not ts:
                k = str(nd['callee'])
                for q, tt in EXTQ.items():
                    if k.startswith(q) and 'error_code' not in k:
                        for t in tt:
                            r.setdefault(t, None)
        elif nd['k'] == 'CXXDynamicCastExpr' and nd.get('lv'):
            r['std::bad_cast'] = None
        return r

    def compute(self, f):
        out = {}
        for nd in f.nodes:
            ts = self.node_types(f, nd)
            if not ts:
                continue
            for h in self.enclosing(f, nd):
                ts = {t: k for t, k in ts.items() if not any(catches(self.m, c, t) for c in h)}
            for t, k in ts.items():
                if t == 'rethrow':
                    t = 'rethrown exception'
                out.setdefault(t, (nd, k))
        if f.d.get('noexcept') or f.name.startswith('~'):
            if out:
                self.stopped[f.key] = dict(out)
            return {}
        return out

    def enclosing(self, f, nd):
        """handler type lists of the try statements whose body contains nd, innermost first"""
        child = nd['i']
        for a in f.ancestors(nd['i']):
            if a['k'] == 'CXXTryStmt' and a.get('body') == child:
                yield [f.nodes[h].get('tt') or '...' for h in a.get('handlers', ())]
            child = a['i']

    def handlers(self, f, e):
        """first blocks of the handlers that an exception thrown by CFG element e would reach"""
        if isinstance(e, dict) or not f.d.get('tryblocks'):
            return ()
        r = []
        ts = set(self.node_types(f, f.nodes[e]))
        if f.nodes[e].get('callee') and f.nodes[e].get('ext') or f.nodes[e]['k'] == 'CXXNewExpr':
            ts.add('unspecified')
        if ts:
            child = e
            for a in f.ancestors(e):
                if a['k'] == 'CXXTryStmt' and a.get('body') == child:
                    for b in f.d['tryblocks']:
                        if f.blocks[b].get('term') == a['i']:
                            for hi, h in enumerate(a.get('handlers', ())):
                                c = f.nodes[h].get('tt') or '...'
                                hit = {t for t in ts if catches(self.m, c, t)}
                                if hit and hi < len(f.blocks[b]['s']) and f.blocks[b]['s'][hi] is not None:
                                    r.append(f.blocks[b]['s'][hi])
                                ts -= hit
                child = a['i']
        return tuple(r)

    def trace(self, f, t):
        out = []
        seen = set()
        while f.key not in seen and t in self.memo[f.key]:
            seen.add(f.key)
            nd, k = self.memo[f.key][t]
            out.append('%s:%d' % (f.q, nd['l']))
            if k is None:
                break
            f = self.m.fns[k]
        return ' -> '.join(out)


def positional(nd):
    pt = nd.get('pt') or ['']
    return nd['cn'] == 'at' or pt[0] in ('unsigned long', 'size_t', 'unsigned int', 'int')


STDBASE = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::system_error': 'std::runtime_error', 'std::regex_error': 'std::runtime_error',
           'std::ios_base::failure': 'std::system_error', 'std::filesystem::filesystem_error': 'std::system_error', 'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_cast': 'std::exception',
           'hfst_ospell::AlphabetTranslationException': 'std::runtime_error', 'hfst_ospell::ZHfstException': 'std::runtime_error', 'hfst_ospell::ZHfstZipReadingError': 'hfst_ospell::ZHfstException',
           'hfst_ospell::ZHfstTemporaryWritingError': 'hfst_ospell::ZHfstException', 'hfst_ospell::ZHfstMetaDataParsingError': 'hfst_ospell::ZHfstException', 'hfst_ospell::ZHfstXmlParsingError': 'hfst_ospell::ZHfstException'}


def catches(m, c, t):
    if c in ('...', None):
        return True
    x = t
    while x:
        if c == x:
            return True
        x = STDBASE.get(x)
    if c == 'std::exception' and (t.startswith('std::') or t in m.records and any('exception' in b for b in m.bases(t))):
        return True
    return t in m.records and c in m.bases(t)
