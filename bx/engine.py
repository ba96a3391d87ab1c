"""Path-sensitive dataflow over value terms.

A function of the resolved program is summarised by the set of its abstract
paths.  Values are hash-consed terms (value numbering); loops are cut: every
variable and container a loop body may change is replaced by an unknown at the
loop head, the body is summarised once for an arbitrary iteration, and the
state after the loop forgets everything the body may change.  Repository
helpers are inlined (bounded), std containers and iterators have models.  No
path is handed to a solver and nothing is executed.
"""
import itertools
from .prog import Broken, walk, children

NO_IND = 18446744073709551615
_uid = itertools.count(1)


class Limit(Broken):
    pass


# ------------------------------------------------------------------ terms
def is_num(t):
    return isinstance(t, int) and not isinstance(t, bool)


def poly(t):
    """term -> dict monomial->coef"""
    if is_num(t):
        return {(): t} if t else {}
    if isinstance(t, tuple) and t and t[0] == 'poly':
        return dict(t[1])
    return {(t,): 1}


_key_cache = {}


def key(t):
    return repr(t)


def mk(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1:
            return m[0]
    return ('poly', tuple(sorted(p.items(), key=key)))


def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    p = poly(a)
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) + c
    return mk(p)


def neg(a):
    return mk({m: -c for m, c in poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono(m1, m2):
    l = list(m1)
    for x in m2:
        y = inv_atom(x)
        if y in l:
            l.remove(y)
        else:
            l.append(x)
    return tuple(sorted(l, key=key))


def inv_atom(x):
    if isinstance(x, tuple) and x and x[0] == 'inv':
        return x[1]
    return ('inv', x)


def mul(a, b):
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 64:
        return ('app', '*', (a, b), 0)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return mk(r)


def inv(a):
    """multiplicative inverse in a field"""
    p = poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c in (1, -1):
            return mk({tuple(sorted((inv_atom(x) for x in m), key=key)): c})
    if is_num(a) and a in (1, -1):
        return a
    return ('inv', a)


def unld(t):
    """strip snapshots/versions everywhere"""
    if isinstance(t, tuple) and t:
        k = t[0]
        if k == 'ld':
            return unld(t[1])
        if k == 'poly':
            r = 0
            for m, c in t[1]:
                x = c
                for a in m:
                    if a[0] == 'inv' if isinstance(a, tuple) else False:
                        x = mul(x, inv(unld(a[1])))
                    else:
                        x = mul(x, unld(a))
                r = add(r, x)
            return r
        if k == 'app':
            return ('app', t[1], tuple(unld(x) for x in t[2]), 0)
        if k == 'size':
            return ('size', unld(t[1]), 0)
        if k in ('sym', 'v', 'this', 'str', 'float'):
            return t
        if isinstance(k, tuple):
            return tuple(unld(x) for x in t)
        return (k,) + tuple(unld(x) if isinstance(x, tuple) else x for x in t[1:])
    return t


def show(t):
    if isinstance(t, bool) or t is None:
        return str(t)
    if is_num(t):
        return 'NO_IND' if t == NO_IND else str(t)
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'sym':
        return t[1]
    if k == 'v':
        return t[1]
    if k == 'this':
        return 'this'
    if k == 'f':
        return show(t[1]) + '.' + t[2]
    if k == 'ix':
        return show(t[1]) + '[' + show(t[2]) + ']'
    if k == 'ld':
        return show(t[1])
    if k == 'it':
        return 'it(%s,%s)' % (show(t[1]), show(t[2]))
    if k == 'size':
        return '|%s|' % show(t[1])
    if k == 'inv':
        return '1/(%s)' % show(t[1])
    if k == 'poly':
        s = []
        for m, c in t[1]:
            x = '*'.join(show(a) for a in m)
            if not m:
                s.append('%+d' % c)
            elif c == 1:
                s.append('+' + x)
            elif c == -1:
                s.append('-' + x)
            else:
                s.append('%+d*%s' % (c, x))
        r = ''.join(s)
        return r[1:] if r[0] == '+' else r
    if k == 'tup':
        return '{%s}' % ', '.join('%s=%s' % (a, show(b)) for a, b in t[1])
    if k == 'list':
        return '{%s}' % ', '.join(show(b) for b in t[1])
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def root(t):
    """root lvalue of a term"""
    while isinstance(t, tuple) and t and t[0] in ('f', 'ix', 'ld', 'it', 'rit', 'size'):
        t = t[1]
    return t


def prefix_alias(p, t):
    """may lvalue p overlap lvalue t (one contains the other)"""
    a, b = path_of(p), path_of(t)
    for x, y in zip(a, b):
        if x == y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == '[' and y[0] == '[':
            d = sub(x[1], y[1])
            if is_num(d) and d != 0:
                return False
            continue
        return False
    return True


_pc = {}


def path_of(t):
    r = _pc.get(t)
    if r is not None:
        return r
    o = t
    out = []
    while isinstance(t, tuple) and t and t[0] in ('f', 'ix', 'ld'):
        if t[0] == 'f':
            out.append(t[2])
        elif t[0] == 'ix':
            out.append(('[', t[2]))
        t = t[1]
    out.append(t)
    out.reverse()
    if len(_pc) < 400000:
        _pc[o] = out
    return out


# ------------------------------------------------------------------ trace
class Ev:
    __slots__ = ('k', 'name', 'obj', 'args', 'line', 'fn', 'res', 'ctx', 'vals', 'lam')

    def __init__(self, k, name, obj, args, line, fn=None, res=None):
        self.k, self.name, self.obj, self.args, self.line, self.fn, self.res = k, name, obj, args, line, fn, res
        self.ctx = ()
        self.vals = self.args
        self.lam = None

    def __repr__(self):
        return '%s:%s(%s; %s)@%s' % (self.k, self.name, show(self.obj), ', '.join(show(a) for a in self.args), self.line)


class Cond:
    __slots__ = ('t', 'pol', 'line')

    def __init__(self, t, pol, line):
        self.t, self.pol, self.line = t, pol, line

    def __repr__(self):
        return '%s[%s]' % ('' if self.pol else '!', show(self.t))


class Loop:
    """kind, iv: name->info, paths: list of Path (one iteration)"""
    __slots__ = ('id', 'line', 'paths', 'start', 'kind', 'rng', 'omp', 'fn', 'var', 'decl', 'exit', 'syms', 'fn0')

    def __repr__(self):
        return 'Loop%d@%s{%s}' % (self.id, self.line, ' || '.join(repr(p) for p in self.paths))


class Leave:
    """how the loop before it was left (the path of the last, partial iteration)"""
    __slots__ = ('loop', 'path')

    def __init__(self, loop, path):
        self.loop, self.path = loop, path

    def __repr__(self):
        return 'Leave%d(%s)' % (self.loop.id, self.path.exit)


class Path:
    __slots__ = ('trace', 'exit', 'val', 'env', 'line', 'st')

    def __repr__(self):
        return '%s->%s%s' % (self.trace, self.exit, '' if self.val is None else ' ' + show(self.val))


class State:
    __slots__ = ('env', 'store', 'ver', 'trace', 'facts', 'types')

    def __init__(self):
        self.env, self.store, self.ver, self.trace, self.facts = {}, {}, {}, [], {}

    def clone(self):
        s = State()
        s.env, s.store, s.ver, s.facts = dict(self.env), dict(self.store), dict(self.ver), dict(self.facts)
        s.trace = list(self.trace)
        return s

    def stamp(self, t):
        r = 0
        for p, v in self.ver.items():
            if v > r and prefix_alias(p, t):
                r = v
        return r

    def mutate(self, lv):
        lv = strip_ld(lv)
        for p in [p for p in self.store if prefix_alias(lv, p)]:
            del self.store[p]
        self.ver[lv] = next(_uid)


def strip_ld(t):
    """lvalue from possibly loaded value"""
    while isinstance(t, tuple) and t and t[0] == 'ld':
        t = t[1]
    return t


# ------------------------------------------------------------------ engine
SCALARISH = ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator',
             'move_iterator', 'reverse_iterator', '_Bit_iterator', '_Bit_const_iterator')


FORWARDS = {'emplace_back', 'push_back', 'emplace', 'insert', 'try_emplace', 'emplace_hint', 'push', 'make_tuple', 'make_pair', 'forward', 'count', 'find', 'operator[]', 'operator<<', 'min', 'max'}


def copies(n):
    """a std call whose forwarding references only copy lvalues"""
    nm = n.get('f', '')
    return nm.startswith('std::') and nm.split('::')[-1] in FORWARDS


class Engine:
    """opts:
       vocab(fn_name, node) -> bool : do not inline, keep as an event
       maxdepth, maxpaths
    """

    casts = ()      # field types whose converting constructors stay visible

    def __init__(self, unit, vocab=None, maxdepth=8, maxpaths=3000, inline=None, fieldtypes=('ModP', 'Rational', 'complex')):
        self.u = unit
        self.vocab = vocab or (lambda name, n: False)
        self.inline_ok = inline or (lambda f: True)
        self.maxdepth, self.maxpaths = maxdepth, maxpaths
        self.fieldtypes = fieldtypes
        self.mutcache = {}
        self.inlined = set()
        self.steps = 0

    # ---------------------------------------------------------------- entry
    def run(self, f, bind=None, this=('this',)):
        """summarise f; returns list of Path"""
        st = State()
        self.curthis = [this]
        self.fstack = [f]
        self.cur = f
        self.thrown = []
        self.steps = 0
        for p in f.d['ps']:
            t = self.u.type(p['t'])
            nm = p['n'] or '_p%d' % p['d']
            if bind and nm in bind:
                st.env[p['d']] = bind[nm]
            elif self.is_scalar_type(t) and not p.get('ref'):
                st.env[p['d']] = ('sym', nm, 0)
            else:
                st.env[p['d']] = ('lv', ('v', nm, 0))
        out = []
        for s, ex, val in self.fbody(f, st):
            p = Path()
            p.trace, p.exit, p.val, p.env, p.st = s.trace, ex, val, s.env, s
            p.line = f.d.get('el')
            out.append(p)
        return out

    def fbody(self, f, st):
        """constructor inits + body -> [(state, exit, value)]"""
        states = [st]
        if f.d.get('ctor'):
            for i in f.d.get('inits', ()):
                if not i.get('n'):
                    # base / delegating
                    nxt = []
                    for s in states:
                        if i.get('deleg') and isinstance(i.get('e'), dict) and i['e'].get('k') == 'ctor':
                            for s2, _ in self.call_ctor_on(i['e'], s, self.this()):
                                nxt.append(s2)
                        else:
                            for s2, v in self.ev(i.get('e'), s):
                                nxt.append(s2)
                    states = nxt
                    continue
                lv = ('f', self.this(), i['n'])
                nxt = []
                for s in states:
                    for s2, v in self.ev(i.get('e'), s):
                        if i.get('w') or True:
                            self.assign(s2, lv, v, i.get('l') or f.line, init=True)
                        nxt.append(s2)
                states = nxt
        out = []
        for s in states:
            out.extend(self.st(f.d['b'], s))
        r = []
        for s, ex, v in out:
            if ex == 'n':
                r.append((s, 'ret', v if v is not None else None))
            else:
                r.append((s, ex, v))
        return r

    def this(self):
        return self.curthis[-1]

    # ---------------------------------------------------------------- types
    def is_scalar_type(self, t):
        t = t.strip()
        for c in ('const ', ):
            if t.startswith(c):
                t = t[len(c):]
        b = t.rstrip('&* ').strip()
        if b in ('int', 'unsigned long', 'long', 'bool', 'double', 'float', 'unsigned int', 'char', 'short', 'unsigned short',
                 'unsigned char', 'long long', 'unsigned long long', 'long double', 'signed char'):
            return True
        if t.endswith('*'):
            return True
        for s in SCALARISH:
            if s in t.split('<')[0]:
                return True
        h = b.split('<')[0]
        if any(h.endswith(x) for x in self.fieldtypes):
            return True
        return False

    def is_int_type(self, t):
        t = t.replace('const ', '').strip().rstrip('&').strip()
        return t in ('int', 'unsigned long', 'long', 'unsigned int', 'char', 'short', 'unsigned short', 'unsigned char',
                     'long long', 'unsigned long long', 'bool', 'signed char')

    def is_field_type(self, t):
        t = t.replace('const ', '').strip().rstrip('&').strip()
        if t in ('double', 'float', 'long double'):
            return True
        h = t.split('<')[0]
        return any(h.endswith(x) for x in self.fieldtypes)

    # --------------------------------------------- which locals are mutated
    def mutated_vars(self, f):
        r = self.mutcache.get(f.id)
        if r is not None:
            return r
        r = set()

        def base(n):
            while isinstance(n, dict):
                k = n.get('k')
                if k == 'var':
                    return n['d']
                if k == 'mem':
                    n = n.get('b')
                elif k == 'idx':
                    n = n.get('b')
                elif k == 'call' and (n.get('op') in ('[]', '*', '->') or n.get('f', '').split('::')[-1] in ('at', 'front', 'back', 'nzbegin', 'nzend', 'begin', 'end')):
                    n = n.get('o') or (n['a'][0] if n['a'] else None)
                elif k == 'cast':
                    n = n.get('e')
                else:
                    return None
            return None

        for n in walk(f.d['b']):
            k = n.get('k')
            if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                r.add(base(n['x']))
            elif k == 'un' and n['op'] in ('++', '--', '&'):
                r.add(base(n['e']))
            elif k == 'call' or k == 'ctor':
                if n.get('o') is not None and not n.get('cm') and not n.get('st'):
                    nm = n.get('f', '').split('::')[-1]
                    if not (nm in ('begin', 'end', 'operator[]', 'at', 'front', 'back', 'operator*', 'operator->', 'nzbegin', 'nzend', 'find') and not n.get('r')):
                        r.add(base(n['o']))
                for i in (() if copies(n) else n.get('mr', ())):
                    if i < len(n['a']):
                        r.add(base(n['a'][i]))
            elif k == 'rfor':
                t = self.u.type(n['v']['t'])
                if '&' in t and not t.startswith('const'):
                    r.add(base(n['r']))
            elif k == 'decl':
                for v in n['v']:
                    t = self.u.type(v['t'])
                    if v.get('ref') and not t.startswith('const') and v.get('i'):
                        r.add(base(v['i']))
        r.discard(None)
        self.mutcache[f.id] = r
        return r

    # ---------------------------------------------------------------- lvalues
    def load(self, st, lv):
        """value of an lvalue"""
        if isinstance(lv, tuple) and lv and lv[0] in ('f', 'ix', 'v', 'this'):
            if lv in st.store:
                return st.store[lv]
            if lv[0] == 'f':      # field of a local copy whose value is known as a whole
                names, o = [], lv
                while isinstance(o, tuple) and o and o[0] == 'f' and o not in st.store:
                    names.append(o[2])
                    o = o[1]
                if isinstance(o, tuple) and o and o[0] == 'v' and o in st.store:
                    v = st.store[o]
                    for nm in reversed(names):
                        if isinstance(v, tuple) and v and v[0] == 'tup' and nm in dict(v[1]):
                            v = dict(v[1])[nm]
                        elif isinstance(v, tuple) and v and v[0] == 'ld' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('ix', 'f'):
                            v = ('ld', ('f', v[1], nm), v[2])
                        else:
                            v = None
                            break
                    if v is not None:
                        return v
            return ('ld', lv, st.stamp(lv))
        return lv

    def assign(self, st, lv, val, line, init=False):
        lv = strip_ld(lv)
        st.mutate(lv)
        st.store[lv] = val
        st.trace.append(Ev('set', 'init' if init else '=', lv, (val,), line, self.cur))

    def deref_env(self, st, n):
        """lvalue for a variable reference, or None if it is a pure value"""
        v = st.env.get(n['d'])
        return v

    def lv(self, n, st):
        """evaluate expression as lvalue -> [(st, lvalue-term)]  (falls back to value terms)"""
        k = n['k']
        if k == 'var':
            v = st.env.get(n['d'])
            if v is None:
                return [(st, self.freevar(n, st))]
            if isinstance(v, tuple) and v and v[0] == 'lv':
                return [(st, v[1])]
            return [(st, ('envvar', n['d'], n['n']))]
        if k == 'this':
            return [(st, self.this())]
        if k == 'mem':
            if n.get('b') is None:
                return [(st, ('f', self.this(), n['n']))]
            out = []
            for s, b in self.lv(n['b'], st):
                b = self.obj_of(s, b)
                out.append((s, self.field(b, n['n'])))
            return out
        if k == 'un' and n['op'] == '*':
            return [(s, self.deref(v)) for s, v in self.ev(n['e'], st)]
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            out = []
            for s, v in self.ev(n, st):
                out.extend(self.lv(n['e'], s))
            return out
        if k == 'idx':
            out = []
            for s, b in self.lv(n['b'], st):
                b = self.obj_of(s, b)
                for s2, i in self.ev(n['i'], s):
                    out.append((s2, self.index(b, i)))
            return out
        if k == 'bin' and n['op'] == ',':
            out = []
            for s, _ in self.ev(n['x'], st):
                out.extend(self.lv(n['y'], s))
            return out
        if k == 'bin' and n['op'] in ('=', '+=', '-=', '*=', '/='):
            out = []
            for s, v in self.ev(n, st):
                out.extend(self.lv(n['x'], s))
            return out
        if k == 'cast':
            return self.lv(n['e'], st)
        if k == 'cond':
            out = []
            for s, b in self.cond(n['c'], st):
                out.extend(self.lv(n['x'] if b else n['y'], s))
            return out
        if k == 'call':
            return self.call(n, st, want_lv=True)
        return self.ev(n, st)

    def freevar(self, n, st):
        if n.get('g'):
            cv = n.get('cv')
            if cv is not None:
                return int(cv)
            return ('v', n['n'], 'g')
        return ('v', n['n'], n['d'])

    def obj_of(self, st, b):
        if isinstance(b, tuple) and b and b[0] == 'envvar':
            v = st.env.get(b[1])
            if isinstance(v, tuple) and v and v[0] == 'lv':
                return v[1]
            return v
        return b

    def field(self, b, name):
        if isinstance(b, tuple) and b:
            if b[0] == 'ld':
                return ('ld', self.field(b[1], name), b[2])
            if b[0] == 'mapit':
                b = ('mapel', b[1], b[2])
            if b[0] == 'ptr' and isinstance(b[1], tuple) and b[1] and b[1][0] == 'mapel':
                b = b[1]
            if b[0] == 'mapel':
                return b[2] if name == 'first' else ('ix', b[1], b[2])
            if b[0] == 'it' or b[0] == 'ptr':
                return ('f', self.deref(b), name)
            if b[0] == 'tup':
                for nm, v in b[1]:
                    if nm == name:
                        return v
        return ('f', b, name)

    def index(self, b, i):
        if isinstance(b, tuple) and b and b[0] == 'ld':
            return ('ld', self.index(b[1], i), b[2])
        if isinstance(b, tuple) and b and b[0] == 'it':
            return ('ix', b[1], add(b[2], i))
        return ('ix', b, i)

    def deref(self, v):
        if isinstance(v, tuple) and v:
            if v[0] == 'it':
                return ('ix', v[1], v[2])
            if v[0] == 'ptr':
                return v[1]
            if v[0] == 'this':
                return v
            if v[0] == 'rit':
                return ('ix', v[1], ('rev', v[2]))
            if v[0] == 'mapit':
                return ('mapel', v[1], v[2])
        return ('ix', v, 0) if isinstance(v, tuple) and v and v[0] == 'ld' else ('deref', v)

    # ---------------------------------------------------------------- eval
    def ev(self, n, st):
        """rvalue -> [(st, term)]"""
        self.steps += 1
        if self.steps > 3000000:
            raise Limit("analysis budget exceeded in %s" % self.fstack[0])
        if n is None:
            return [(st, None)]
        k = n['k']
        m = getattr(self, 'ev_' + k, None)
        if m:
            return m(n, st)
        if k in ('var', 'mem', 'idx'):
            return self.rval(self.lv(n, st))
        return [(st, ('opaque', k, next(_uid)))]

    def rval(self, res):
        out = []
        for s, l in res:
            if isinstance(l, tuple) and l and l[0] == 'envvar':
                v = s.env.get(l[1])
                out.append((s, v[1] if isinstance(v, tuple) and v and v[0] == 'lv' else v))
            else:
                out.append((s, self.load(s, l)))
        return out

    def ev_int(self, n, st):
        v = n['v']
        return [(st, int(v))]

    def ev_bool(self, n, st):
        return [(st, 1 if n.get('v') else 0)]

    def ev_chr(self, n, st):
        return [(st, n['v'])]

    def ev_float(self, n, st):
        try:
            f = float(n['v'])
            if f == int(f) and abs(f) < 1e15:
                return [(st, int(f))]
        except (ValueError, OverflowError):
            pass
        return [(st, ('float', n['v']))]

    def ev_str(self, n, st):
        return [(st, ('str', n.get('v', '')))]

    def ev_null(self, n, st):
        return [(st, 0)]

    def ev_zero(self, n, st):
        return [(st, 0)]

    def ev_this(self, n, st):
        return [(st, ('ptr', self.this()))]

    def ev_fn(self, n, st):
        return [(st, ('fn', n.get('f', '?'), n.get('fid', -1)))]

    def ev_sizeof(self, n, st):
        return [(st, ('app', 'sizeof', (n.get('v', 0),), 0))]

    def ev_cast(self, n, st):
        ck = n.get('ck', '')
        if ck == 'FloatingToIntegral':
            return [(s, ('app', 'trunc', (v,), 0)) for s, v in self.ev(n['e'], st)]
        if ck in ('IntegralToBoolean',):
            return self.ev(n['e'], st)
        out = []
        for s, v in self.ev(n['e'], st):
            if is_num(v) and v < 0 and ck == 'IntegralCast' and 'unsigned long' in self.u.type(n.get('t')):
                v = v % (1 << 64)
            out.append((s, v))
        return out

    def ev_cond(self, n, st):
        out = []
        for s, b in self.cond(n['c'], st):
            out.extend(self.ev(n['x'] if b else n['y'], s))
        return out

    def ev_throw(self, n, st):
        raise Broken('throw in expression position')

    def ev_lambda(self, n, st):
        caps = []
        for c in n['caps']:
            if 'd' in c:
                caps.append((c['d'], c['ref']))
        return [(st, ('lam', n['fid'], tuple(c[0] for c in caps)))]

    def evs(self, ns, st):
        res = [(st, [])]
        for a in ns:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_il(self, n, st):
        return [(s, ('list', tuple(vs))) for s, vs in self.evs(n['a'], st)]

    def ev_new(self, n, st):
        return [(s, ('app', 'new', (v, next(_uid)), 0)) for s, v in self.ev(n.get('e'), st)]

    def ev_delete(self, n, st):
        out = []
        for s, v in self.ev(n['e'], st):
            s.trace.append(Ev('delete', 'delete', v, (), n['l'], self.cur))
            out.append((s, None))
        return out

    def ev_un(self, n, st):
        op = n['op']
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            out = []
            for s, l in self.lv(n['e'], st):
                old = self.getlv(s, l)
                new = self.advance(old, d)
                self.setlv(s, l, new, n['l'])
                out.append((s, old if n.get('post') else new))
            return out
        if op == '!':
            return [(s, 0 if b else 1) for s, b in self.cond(n['e'], st)]
        if op == '&':
            return [(s, ('ptr', self.obj_of(s, l))) for s, l in self.lv(n['e'], st)]
        if op == '*':
            return self.rval(self.lv(n, st))
        if op == '-':
            return [(s, neg(v)) for s, v in self.ev(n['e'], st)]
        if op == '+':
            return self.ev(n['e'], st)
        return [(s, ('app', op, (v,), 0)) for s, v in self.ev(n['e'], st)]

    def advance(self, v, d):
        if isinstance(v, tuple) and v and v[0] in ('it', 'rit'):
            return (v[0], v[1], add(v[2], d))
        return add(v, d)

    def getlv(self, st, l):
        if isinstance(l, tuple) and l and l[0] == 'envvar':
            v = st.env[l[1]]
            return v[1] if isinstance(v, tuple) and v and v[0] == 'lv' else v
        return self.load(st, l)

    def setlv(self, st, l, v, line):
        if isinstance(l, tuple) and l and l[0] == 'tie':
            for i, x in enumerate(l[1]):
                if isinstance(v, tuple) and v and v[0] == 'tup':
                    y = v[1][i][1]
                else:
                    y = ('f', v, 'get%d' % i)
                self.setlv(st, x, y, line)
            return
        if isinstance(l, tuple) and l and l[0] == 'envvar':
            st.env[l[1]] = v
        else:
            self.assign(st, l, v, line)

    def arith(self, op, a, b, t):
        """arithmetic on terms; t result type string"""
        if isinstance(a, tuple) and a and a[0] in ('it', 'rit'):
            if isinstance(b, tuple) and b and b[0] == a[0] and op == '-':
                return sub(a[2], b[2])
            if op == '+':
                return (a[0], a[1], add(a[2], b))
            if op == '-':
                return (a[0], a[1], sub(a[2], b))
        if isinstance(b, tuple) and b and b[0] in ('it', 'rit') and op == '+':
            return (b[0], b[1], add(b[2], a))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if self.is_field_type(t):
                return mul(a, inv(b))
            if is_num(a) and is_num(b) and b > 0 and a >= 0:
                return a // b
            return ('app', '/', (a, b), 0)
        if op == '%':
            if is_num(a) and is_num(b) and b > 0 and a >= 0:
                return a % b
            return ('app', '%u' if t.replace('const ', '').strip() == 'unsigned int' else '%', (a, b), 0)
        if op == '<<' and is_num(a) and is_num(b):
            return a << b
        if op in ('|', '&', '^') and is_num(a) and is_num(b):
            return {'|': a | b, '&': a & b, '^': a ^ b}[op]
        if op in ('|', '&', '^'):
            a, b = sorted((a, b), key=key)
        return ('app', op, (a, b), 0)

    def ev_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            return [(s, 1 if b else 0) for s, b in self.cond(n, st)] if op in ('&&', '||') else self.cmpval(n, st)
        if op == ',':
            out = []
            for s, _ in self.ev(n['x'], st):
                out.extend(self.ev(n['y'], s))
            return out
        if op == '=':
            out = []
            for s, v in self.ev(n['y'], st):
                for s2, l in self.lv(n['x'], s):
                    self.setlv(s2, l, v, n['l'])
                    out.append((s2, v))
            return out
        if op.endswith('='):
            o = op[:-1]
            out = []
            for s, v in self.ev(n['y'], st):
                for s2, l in self.lv(n['x'], s):
                    new = self.arith(o, self.getlv(s2, l), v, self.u.type(n.get('ct', n.get('t'))))
                    self.setlv(s2, l, new, n['l'])
                    out.append((s2, new))
            return out
        out = []
        for s, a in self.ev(n['x'], st):
            for s2, b in self.ev(n['y'], s):
                out.append((s2, self.arith(op, a, b, self.u.type(n.get('t')))))
        return out

    # ---------------------------------------------------------------- conditions
    def cmp_term(self, op, a, b):
        """canonical comparison -> (term, polarity) or bool"""
        for x, y in ((a, b), (b, a)):
            if op in ('==', '!=') and isinstance(x, tuple) and x and x[0] == 'mapit' and isinstance(y, tuple) and y and y[0] == 'it' and strip_ld(y[1]) == x[1]:
                return ('cmp', '==', 0, x[3]), op == '=='
        if isinstance(a, tuple) and a and a[0] == 'app' and a[1] == 'count' and is_num(b):
            if (op, b) in (('>', 0), ('!=', 0), ('>=', 1)):
                return ('cmp', '==', 0, a), False
            if (op, b) in (('<=', 0), ('==', 0), ('<', 1)):
                return ('cmp', '==', 0, a), True
            if op in ('==', '!=') and b == 1:
                return ('cmp', '==', 0, a), op == '!='
        if isinstance(a, tuple) and a and a[0] in ('it', 'rit') and isinstance(b, tuple) and b and b[0] == a[0]:
            ca, cb = strip_ld(a[1]), strip_ld(b[1])
            if ca == cb:
                a, b = a[2], b[2]
        if op in ('>', '<='):
            a, b = b, a
            op = '<' if op == '>' else '>='
        pol = True
        if op == '>=':
            op, pol = '<', False
        if op == '!=':
            op, pol = '==', False
        if is_num(a) and is_num(b):
            r = (a < b) if op == '<' else (a == b)
            return r if pol else (not r)
        d = sub(b, a) if not (isinstance(a, tuple) and a and a[0] in ('it', 'str', 'float') or isinstance(b, tuple) and b and b[0] in ('it', 'str', 'float')) else None
        if d is not None and is_num(d):
            r = (d > 0) if op == '<' else (d == 0)
            return r if pol else (not r)
        if op == '==':
            if key(a) > key(b):
                a, b = b, a
        return ('cmp', op, a, b), pol

    def lookup(self, st, t):
        """known truth of canonical comparison term, or None"""
        r = st.facts.get(t)
        if r is not None:
            return r
        if t[0] != 'cmp':
            return None
        op, a, b = t[1], t[2], t[3]
        if op == '<':
            if st.facts.get(('cmp', '<', b, a)) is True:
                return False
            eq = ('cmp', '==') + tuple(sorted((a, b), key=key))
            e = st.facts.get(eq)
            if e is True:
                return False
            if e is False and st.facts.get(('cmp', '<', b, a)) is False:
                return True
            # a < b+c weakening for known numeric bounds
            if is_num(b) or is_num(a):
                for f, v in st.facts.items():
                    if f[0] != 'cmp':
                        continue
                    if f[1] == '==' and v is True:
                        x, y = f[2], f[3]
                        if is_num(x):
                            x, y = y, x
                        if is_num(y):
                            if x == a and is_num(b):
                                return y < b
                            if x == b and is_num(a):
                                return a < y
                    if f[1] == '<':
                        x, y = f[2], f[3]
                        if is_num(b) and x == a and is_num(y) and v is True and y <= b:
                            return True
                        if is_num(b) and x == a and is_num(y) and v is False and y >= b:
                            return False
                        if is_num(a) and y == b and is_num(x) and v is True and x >= a:
                            return True
                        if is_num(a) and y == b and is_num(x) and v is False and x <= a:
                            return False
        else:
            if st.facts.get(('cmp', '<', a, b)) is True or st.facts.get(('cmp', '<', b, a)) is True:
                return False
            if st.facts.get(('cmp', '<', a, b)) is False and st.facts.get(('cmp', '<', b, a)) is False:
                return True
            if is_num(a) or is_num(b):
                x, c = (b, a) if is_num(a) else (a, b)
                for f, v in st.facts.items():
                    if f[0] == 'cmp' and f[1] == '==' and v is True:
                        p, q = f[2], f[3]
                        if is_num(p):
                            p, q = q, p
                        if p == x and is_num(q):
                            return q == c
                    if f[0] == 'cmp' and f[1] == '<':
                        p, q = f[2], f[3]
                        if p == x and is_num(q):
                            if v is True and c >= q:
                                return False
                            if v is False and c < q:
                                return False
                        if q == x and is_num(p):
                            if v is True and c <= p:
                                return False
                            if v is False and c > p:
                                return False
        return None

    def branch(self, st, t, line):
        """t: canonical (term,pol) or bool -> [(st,bool)]"""
        if isinstance(t, bool):
            return [(st, t)]
        term, pol = t
        known = self.lookup(st, term)
        if known is not None:
            return [(st, known == pol)]
        s2 = st.clone()
        out = []
        for s, v in ((st, True), (s2, False)):
            s.facts[term] = v
            s.trace.append(Cond(term, v, line))
            out.append((s, v == pol))
        return out

    def cmpval(self, n, st):
        """comparison used as a value: fork"""
        return [(s, 1 if b else 0) for s, b in self.cond(n, st)]

    def truth(self, v, st, line):
        if v is None:
            return [(st, True), (st.clone(), False)]
        if is_num(v):
            return [(st, v != 0)]
        if isinstance(v, tuple) and v and v[0] == 'boolnot':
            return [(s, not b) for s, b in self.truth(v[1], st, line)]
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            return self.branch(st, (v, True), line)
        if isinstance(v, tuple) and v and v[0] == 'app' and v[1] == 'count':
            return self.branch(st, (('cmp', '==', 0, v), False), line)
        return self.branch(st, (('truth', v), True), line)

    def cond(self, n, st):
        k = n['k']
        if k == 'bin':
            op = n['op']
            if op == '&&':
                out = []
                for s, b in self.cond(n['x'], st):
                    if not b:
                        out.append((s, False))
                    else:
                        out.extend(self.cond(n['y'], s))
                return out
            if op == '||':
                out = []
                for s, b in self.cond(n['x'], st):
                    if b:
                        out.append((s, True))
                    else:
                        out.extend(self.cond(n['y'], s))
                return out
            if op in ('<', '>', '<=', '>=', '==', '!='):
                out = []
                for s, a in self.ev(n['x'], st):
                    for s2, b in self.ev(n['y'], s):
                        # x == true / false on already-boolean
                        out.extend(self.branch(s2, self.cmp_term(op, a, b), n['l']))
                return out
        if k == 'un' and n['op'] == '!':
            return [(s, not b) for s, b in self.cond(n['e'], st)]
        if k == 'cast':
            return self.cond(n['e'], st) if n.get('ck') != 'FloatingToIntegral' else self._tr(n, st)
        if k == 'call' and n.get('op') in ('<', '>', '<=', '>=', '==', '!=') and not (n.get('r') and self.want_inline(n)):
            args = ([n['o']] if n.get('o') else []) + n['a']
            out = []
            for s, vs in self.evs(args, st):
                out.extend(self.branch(s, self.cmp_term(n['op'], vs[0], vs[1]), n['l']))
            return out
        return self._tr(n, st)

    def _tr(self, n, st):
        out = []
        for s, v in self.ev(n, st):
            out.extend(self.truth(v, s, n.get('l')))
        return out

    # ---------------------------------------------------------------- calls
    def want_inline(self, n):
        if not n.get('r'):
            return None
        f = self.u.byid.get(n['fid'])
        if f is None or f.dep:
            return None
        if self.vocab(n['f'], n):
            return None
        if len(self.fstack) > self.maxdepth or f in self.fstack:
            return None
        if not self.inline_ok(f):
            return None
        if self.fieldtypes and n.get('op') and n['op'] in ('<', '>', '<=', '>=', '==', '!=', '+', '-', '*', '/') and any(f.name.startswith(x) or ('::' + x) in f.name for x in ('bats::ModP', 'bats::Rational', 'ModP', 'Rational')):
            return None
        return f

    def ev_ctor(self, n, st):
        a = n['a']
        t = self.u.type(n['t'])
        if n.get('cp') or n.get('mv'):
            return self.ev(a[0], st)
        nm = n.get('f', '')
        base = t.replace('const ', '').split('<')[0]
        if len(a) == 1 and self.is_scalar_type(t):
            if self.casts and base.split('::')[-1] in self.casts:
                return [(s, v if is_num(v) else ('app', base, (v,), 0)) for s, v in self.ev(a[0], st)]
            return self.ev(a[0], st)
        if self.is_scalar_type(t) and len(a) == 0:
            return [(st, 0)]
        if base.endswith('nzpair') or base == 'std::pair' or base.endswith('pair'):
            if len(a) == 2:
                nms = ('first', 'second') if base.endswith('std::pair') else ('ind', 'val')
                return [(s, ('tup', tuple(zip(nms, vs)))) for s, vs in self.evs(a, st)]
        out = []
        for s, vs in self.evs(a, st):
            if base == 'std::vector' and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'list':
                out.append((s, vs[0]))
                continue
            out.append((s, ('app', 'new ' + base, tuple(vs), 0)))
        return out

    def call_ctor_on(self, n, st, obj):
        f = self.u.byid.get(n['fid']) if n.get('r') else None
        out = []
        for s, vs in self.evs(n['a'], st):
            if f is None or f.dep or f in self.fstack:
                s.trace.append(Ev('call', n.get('f', '?'), obj, tuple(vs), n['l'], self.cur))
                out.append((s, None))
            else:
                for s2, v in self.inline(f, s, obj, n['a'], vs, n):
                    out.append((s2, v))
        return out

    def inline(self, f, st, obj, argn, vals, n):
        """vals: already evaluated arguments: values or ('lv', lvalue)"""
        saved = (self.cur,)
        self.inlined.add(f)
        self.fstack.append(f)
        self.cur = f
        self.curthis.append(obj if obj is not None else self.curthis[-1])
        saved_env = {}
        mut = self.mutated_vars(f)
        for p, v in zip(f.d['ps'], vals):
            if p['d'] in st.env:
                saved_env[p['d']] = st.env[p['d']]
            t = self.u.type(p['t'])
            if isinstance(v, tuple) and v and v[0] == 'lv':
                st.env[p['d']] = v
            elif self.is_scalar_type(t) or p['d'] not in mut:
                st.env[p['d']] = v
            else:
                r = ('v', p['n'], next(_uid))
                st.trace.append(Ev('set', 'init', r, (v,), n['l'], f))
                st.store[r] = v
                st.env[p['d']] = ('lv', r)
        for p in f.d['ps'][len(vals):]:
            if p.get('def'):
                (s_, v), = self.ev(p['def'], st)[:1]
                st.env[p['d']] = v
        res = self.fbody(f, st)
        self.curthis.pop()
        self.fstack.pop()
        self.cur = saved[0]
        out = []
        for s, ex, v in res:
            for d, ov in saved_env.items():
                s.env[d] = ov
            if ex == 'throw':
                s.trace.append(Ev('throw', 'throw', None, (), n['l'], f))
                self.thrown.append((s, 'throw', v))
                continue
            out.append((s, v))
        if len(out) > self.maxpaths:
            raise Limit('too many paths through %s' % f)
        return out

    thrown = None

    def call(self, n, st, want_lv=False):
        name = n.get('f')
        if name is None:
            # call through a value: lambda or function object
            return self.call_value(n, st, n.get('fx'), n['a'])
        short = name.split('::')[-1]
        f = self.want_inline(n)
        # lambda call operator
        if '(lambda)' in name and short == 'operator()':
            lam = self.u.byid.get(n['fid'])
            out = []
            for s, vs in self.args_for(n, st, lam):
                if lam is None or lam.dep or lam in self.fstack:
                    out.append((s, ('app', 'lambda', tuple(vs), next(_uid))))
                else:
                    ct = self.curthis[-1]
                    out.extend(self.inline(lam, s, ct, n['a'], vs, n))
            return self.fin(out, lam, want_lv) if lam else out
        if f is not None:
            out = []
            objs = [(st, None)]
            if n.get('o') is not None:
                objs = [(s, self.unptr(self.obj_of(s, o))) for s, o in self.lv(n['o'], st)]
            for s, o in objs:
                for s2, vs in self.args_for(n, s, f):
                    out.extend(self.inline(f, s2, o, n['a'], vs, n))
            return self.fin(out, f, want_lv)
        r = self.model(n, st, name, short, want_lv)
        if r is not None:
            return r
        return self.generic(n, st, name, short, want_lv)

    def fin(self, out, f, want_lv):
        rt = self.u.type(f.d['ret'])
        isref = '&' in rt[-3:]
        if want_lv:
            return out
        res = []
        for s, v in out:
            if isref and isinstance(v, tuple) and v and v[0] in ('f', 'ix', 'v', 'this'):
                v = self.load(s, v)
            res.append((s, v))
        return res

    def unptr(self, o):
        if isinstance(o, tuple) and o and o[0] == 'ptr':
            return o[1]
        if isinstance(o, tuple) and o and o[0] == 'ld' and isinstance(o[1], tuple):
            return o
        return o

    def args_for(self, n, st, f):
        """evaluate args honoring reference parameters"""
        res = [(st, [])]
        ps = f.d['ps'] if f else []
        for i, a in enumerate(n['a']):
            nxt = []
            isref = i < len(ps) and ps[i].get('ref')
            for s, vs in res:
                if isref and a['k'] in ('var', 'mem', 'idx', 'call', 'un', 'this', 'cond'):
                    for s2, l in self.lv(a, s):
                        if isinstance(l, tuple) and l and l[0] == 'envvar':
                            v = s2.env.get(l[1])
                            if isinstance(v, tuple) and v and v[0] == 'lv':
                                nxt.append((s2, vs + [v]))
                            elif not ps[i].get('cref') and ps[i].get('ref') == 1:
                                # scalar passed by mutable reference: share through a named root
                                r = ('ref', l[1])
                                nxt.append((s2, vs + [('alias', l[1])]))
                            else:
                                nxt.append((s2, vs + [v]))
                        elif isinstance(l, tuple) and l and l[0] in ('f', 'ix', 'v', 'this'):
                            nxt.append((s2, vs + [('lv', l)]))
                        else:
                            nxt.append((s2, vs + [l]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v]))
            res = nxt
        # scalars by mutable ref: materialise as roots
        out = []
        for s, vs in res:
            vs2 = []
            for v in vs:
                if isinstance(v, tuple) and v and v[0] == 'alias':
                    r = ('v', 'ref', next(_uid))
                    s.store[r] = s.env.get(v[1])
                    s.env[v[1]] = ('lv', r)
                    vs2.append(('lv', r))
                else:
                    vs2.append(v)
            out.append((s, vs2))
        return out

    def call_value(self, n, st, fx, args):
        out = []
        for s, fv in self.ev(fx, st):
            for s2, vs in self.evs(args, s):
                if isinstance(fv, tuple) and fv and fv[0] == 'ptr':
                    fv = fv[1]
                out.append((s2, ('app', 'callv', (fv,) + tuple(vs), 0)))
        return out

    def ev_call(self, n, st):
        return self.rval(self.call(n, st))

    # ---- models of std containers, iterators, pairs, algorithms
    def model(self, n, st, name, short, want_lv):
        isstd = name.startswith('std::') or name.startswith('__gnu_cxx::')
        if not isstd:
            return None
        a = n['a']
        op = n.get('op')
        cls = name.split('::')[-2] if '::' in name else ''

        def objs():
            return [(s, self.unptr(self.obj_of(s, o))) for s, o in self.lv(n['o'], st)]

        iscont = cls in ('vector', 'deque', 'array', 'basic_string', 'initializer_list', '_Vector_base', 'set', 'map', 'unordered_map', 'unordered_set', 'list')
        isit = cls in ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', 'reverse_iterator', '_Node_iterator', '_Node_const_iterator', '_Bit_iterator', '_Bit_iterator_base', '_Bit_const_iterator', 'move_iterator')
        if n.get('o') is not None and iscont:
            seq = cls in ('vector', 'deque', 'array', 'basic_string', 'initializer_list')
            if short in ('begin', 'cbegin'):
                return [(s, ('it', strip_ld(o), 0)) for s, o in objs()]
            if short in ('end', 'cend'):
                return [(s, ('it', strip_ld(o), self.size(s, o))) for s, o in objs()]
            if short in ('rbegin', 'crbegin'):
                return [(s, ('rit', strip_ld(o), 0)) for s, o in objs()]
            if short in ('rend', 'crend'):
                return [(s, ('rit', strip_ld(o), self.size(s, o))) for s, o in objs()]
            if short == 'size':
                return [(s, self.size(s, o)) for s, o in objs()]
            if short == 'empty':
                out = []
                for s, o in objs():
                    sz = self.size(s, o)
                    t = self.cmp_term('==', sz, 0)
                    out.extend((s2, 1 if b else 0) for s2, b in self.branch(s, t, n['l']))
                return out
            if short in ('operator[]', 'at') and seq:
                out = []
                for s, o in objs():
                    for s2, i in self.ev(a[0], s):
                        l = self.index(o, i)
                        out.append((s2, l))
                return out
            if short == 'front' and seq:
                return [(s, self.index(o, 0)) for s, o in objs()]
            if short == 'back' and seq:
                return [(s, self.index(o, sub(self.size(s, o), 1))) for s, o in objs()]
            if short in ('reserve', 'shrink_to_fit'):
                out = []
                for s, o in objs():
                    for s2, vs in self.evs(a, s):
                        out.append((s2, None))
                return out
            if short in ('operator[]', 'at') and cls in ('map', 'unordered_map'):
                out = []
                for s, o in objs():
                    for s2, i in self.ev(a[0], s):
                        if isinstance(i, tuple) and i and i[0] == 'lv':
                            i = self.load(s2, i[1])
                        s2.trace.append(Ev('mapref', name, strip_ld(o), (i,), n['l'], self.cur))
                        out.append((s2, self.index(o, i)))
                return out
            if short == 'find' and cls in ('map', 'unordered_map', 'set', 'unordered_set'):
                out = []
                for s, o in objs():
                    for s2, i in self.ev(a[0], s):
                        o2 = strip_ld(o)
                        cnt = ('app', 'count', (o2, i), s2.stamp(o2) if isinstance(o2, tuple) else 0)
                        out.append((s2, ('mapit', o2, i, cnt)))
                return out
            if short == 'count' and cls in ('map', 'unordered_map', 'set', 'unordered_set'):
                out = []
                for s, o in objs():
                    for s2, i in self.ev(a[0], s):
                        o2 = strip_ld(o)
                        out.append((s2, ('app', 'count', (o2, i), s2.stamp(o2) if isinstance(o2, tuple) else 0)))
                return out
            if short == 'data':
                return [(s, ('it', strip_ld(o), 0)) for s, o in objs()]
            if short in ('operator=',):
                out = []
                for s, o in objs():
                    for s2, v in self.ev(a[0], s):
                        self.assign(s2, o, v, n['l'])
                        out.append((s2, o))
                return out
        if isit and n.get('o') is not None:
            if op in ('++', '--'):
                d = 1 if op == '++' else -1
                post = len(a) == 1
                out = []
                for s, l in self.lv(n['o'], st):
                    old = self.getlv(s, l)
                    new = self.advance(old, d)
                    self.setlv(s, l, new, n['l'])
                    out.append((s, old if post else new))
                return out
            if op == '*' and not a:
                return [(s, self.deref(v)) for s, v in self.ev(n['o'], st)]
            if op == '->':
                return [(s, ('ptr', self.deref(v))) for s, v in self.ev(n['o'], st)]
            if op in ('+', '-') and len(a) == 1:
                out = []
                for s, x in self.ev(n['o'], st):
                    for s2, y in self.ev(a[0], s):
                        out.append((s2, self.arith(op, x, y, '')))
                return out
            if op == '[]':
                out = []
                for s, x in self.ev(n['o'], st):
                    for s2, y in self.ev(a[0], s):
                        out.append((s2, self.deref(self.advance(x, 0)) if y == 0 else self.deref(self.arith('+', x, y, ''))))
                return out
            if op in ('+=', '-='):
                out = []
                for s, y in self.ev(a[0], st):
                    for s2, l in self.lv(n['o'], s):
                        new = self.arith(op[0], self.getlv(s2, l), y, '')
                        self.setlv(s2, l, new, n['l'])
                        out.append((s2, new))
                return out
            if short == 'base':
                return self.ev(n['o'], st)
            if op == '=':
                out = []
                for s, v in self.ev(a[0], st):
                    for s2, l in self.lv(n['o'], s):
                        self.setlv(s2, l, v, n['l'])
                        out.append((s2, v))
                return out
        if op == '-' and len(a) == 2 and n.get('o') is None:
            return [(s, self.arith('-', vs[0], vs[1], '')) for s, vs in self.evs(a, st)]
        if op == '+' and len(a) == 2 and n.get('o') is None:
            return [(s, self.arith('+', vs[0], vs[1], self.u.type(n.get('t')))) for s, vs in self.evs(a, st)]
        if short in ('move', 'forward') and len(a) == 1:
            if want_lv:
                return self.lv(a[0], st)
            return self.ev(a[0], st)
        if short in ('next', 'prev') and len(a) >= 1:
            out = []
            for s, vs in self.evs(a, st):
                d = vs[1] if len(vs) > 1 and vs[1] is not None else 1
                out.append((s, self.arith('+' if short == 'next' else '-', vs[0], d, '')))
            return out
        if short in ('begin', 'cbegin', 'end', 'cend') and len(a) == 1 and n.get('o') is None:
            out = []
            for s, o in self.lv(a[0], st):
                o = strip_ld(self.obj_of(s, o))
                out.append((s, ('it', o, 0 if 'begin' in short else self.size(s, o))))
            return out
        if short == 'distance' and n.get('o') is None and len(a) == 2:
            out = []
            for s, vs in self.evs(a, st):
                x, y = vs
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'it' and strip_ld(x[1]) == strip_ld(y[1]):
                    out.append((s, sub(y[2], x[2])))
                else:
                    out.append((s, self.arith('-', y, x, '')))
            return out
        if name in ('std::lower_bound', 'std::upper_bound') and len(a) in (3, 4):
            out = []
            for s, vs in self.evs(a, st):
                x, y = vs[0], vs[1]
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'it' and strip_ld(x[1]) == strip_ld(y[1]):
                    C = strip_ld(x[1])
                    v = vs[2]
                    if isinstance(v, tuple) and v and v[0] == 'lv':
                        v = self.load(s, v[1])
                    t = ('app', short, (C, x[2], y[2], v) + tuple(vs[3:]), s.stamp(C) if isinstance(C, tuple) else 0)
                    s.trace.append(Ev('pure', name, None, (x, y, v), n['l'], self.cur, ('it', C, t)))
                    out.append((s, ('it', C, t)))
                else:
                    t = ('app', name, tuple(vs), 0)
                    s.trace.append(Ev('pure', name, None, tuple(vs), n['l'], self.cur, t))
                    out.append((s, t))
            return out
        if name.startswith('std::') and short in ('sort', 'stable_sort', 'reverse', 'rotate', 'iota', 'fill', 'shuffle', 'random_shuffle', 'nth_element', 'unique', 'partial_sort', 'fill_n') and n.get('o') is None:
            out = []
            for s, vs in self.evs(a, st):
                t = ('app', name, tuple(vs), next(_uid))
                s.trace.append(Ev('call', name, None, tuple(vs), n['l'], self.cur, t))
                s.trace[-1].lam = self.comparator(s, vs, n)
                for v in vs:
                    if isinstance(v, tuple) and v and v[0] in ('it', 'rit') and isinstance(strip_ld(v[1]), tuple):
                        s.mutate_elems(strip_ld(v[1])) if hasattr(s, 'mutate_elems') else s.mutate(strip_ld(v[1]))
                out.append((s, ('it', strip_ld(vs[0][1]), t) if short == 'unique' and isinstance(vs[0], tuple) and vs[0][0] == 'it' else t))
            return out
        if short in ('max', 'min') and n.get('o') is None and len(a) == 2:
            out = []
            for s, vs in self.evs(a, st):
                x, y = sorted(vs, key=key)
                if is_num(x) and is_num(y):
                    out.append((s, max(x, y) if short == 'max' else min(x, y)))
                else:
                    out.append((s, x if x == y else ('app', short, (x, y), 0)))
            return out
        if short == 'tie':
            res = [(st, [])]
            for x in a:
                nxt = []
                for s, vs in res:
                    for s2, l in self.lv(x, s):
                        nxt.append((s2, vs + [l]))
                res = nxt
            return [(s, ('tie', tuple(vs))) for s, vs in res]
        if short == 'make_pair' or short == 'make_tuple':
            nms = ('first', 'second') if short == 'make_pair' else tuple('get%d' % i for i in range(len(a)))
            return [(s, ('tup', tuple(zip(nms, vs)))) for s, vs in self.evs(a, st)]
        if short == 'swap' and n.get('o') is None and len(a) == 2:
            out = []
            for s, l1 in self.lv(a[0], st):
                for s2, l2 in self.lv(a[1], s):
                    v1, v2 = self.getlv(s2, l1), self.getlv(s2, l2)
                    e1 = isinstance(l1, tuple) and l1 and l1[0] == 'envvar'
                    e2 = isinstance(l2, tuple) and l2 and l2[0] == 'envvar'
                    s2.trace.append(Ev('call', 'std::swap', None, (self.obj_of(s2, l1), self.obj_of(s2, l2)), n['l'], self.cur))
                    if e1:
                        s2.env[l1[1]] = v2
                    else:
                        s2.mutate(l1)
                        s2.store[strip_ld(l1)] = v2
                    if e2:
                        s2.env[l2[1]] = v1
                    else:
                        s2.mutate(l2)
                        s2.store[strip_ld(l2)] = v1
                    out.append((s2, None))
            return out
        return None

    def comparator(self, st, vs, n):
        """a lambda passed to an algorithm, evaluated on two arbitrary elements:
        ((a, b), [(conditions, value)])"""
        for v in vs:
            if isinstance(v, tuple) and v and v[0] == 'lam':
                f = self.u.byid.get(v[1])
                if f is None or f.dep or f in self.fstack:
                    return None
                xs = tuple(('sym', p['n'] or 'p%d' % i, next(_uid)) for i, p in enumerate(f.d['ps']))
                s = st.clone()
                s.trace = []
                keep, self.thrown = self.thrown, []
                try:
                    res = self.inline(f, s, self.curthis[-1], [], list(xs), n)
                except Limit:
                    return None
                finally:
                    self.thrown = keep
                return xs, [(s2.trace, r) for s2, r in res]
        return None

    def size(self, st, o):
        o2 = strip_ld(o)
        if isinstance(o2, tuple) and o2 and o2[0] == 'list':
            return len(o2[1])
        v = st.store.get(o2)
        if isinstance(v, tuple) and v and v[0] == 'list':
            return len(v[1])
        return ('size', o2, st.stamp(o2) if isinstance(o2, tuple) else 0)

    def generic(self, n, st, name, short, want_lv):
        """uninterpreted call: const -> pure application, otherwise an event"""
        a = n['a']
        out = []
        objs = [(st, None)]
        if n.get('o') is not None:
            objs = [(s, self.unptr(self.obj_of(s, o))) for s, o in self.lv(n['o'], st)]
        op = n.get('op')
        mr = n.get('mr', [])
        if name.startswith('std::') and short in ('emplace_back', 'push_back', 'emplace', 'insert', 'try_emplace', 'emplace_hint', 'push', 'make_tuple', 'count', 'find', 'erase', 'operator[]', 'operator<<'):
            mr = []
        for s0, o in objs:
            res = [(s0, [])]
            for i, x in enumerate(a):
                nxt = []
                for s, vs in res:
                    if i in mr or x['k'] in ('var', 'mem') and not self.is_scalar_type(self.u.type(x.get('t'))):
                        for s2, l in self.lv(x, s):
                            if i in mr and isinstance(l, tuple) and l and l[0] == 'envvar':
                                nxt.append((s2, vs + [('byref', l)]))
                            else:
                                l = self.obj_of(s2, l)
                                nxt.append((s2, vs + [l]))
                    else:
                        for s2, v in self.ev(x, s):
                            nxt.append((s2, vs + [v]))
                res = nxt
            for s, vs in res:
                # field arithmetic
                if op in ('+', '-', '*', '/') and self.is_field_type(self.u.type(n['t'])):
                    allv = ([self.load(s, o)] if o is not None else []) + vs
                    if len(allv) == 2:
                        out.append((s, self.arith(op, self.valof(s, allv[0]), self.valof(s, allv[1]), 'double')))
                        continue
                    if len(allv) == 1 and op == '-':
                        out.append((s, neg(self.valof(s, allv[0]))))
                        continue
                if op in ('+=', '-=', '*=', '/=') and len(vs) == 1 and n.get('o') is not None and self.is_field_type(self.u.type(n['o'].get('t'))):
                    for s2, l in self.lv(n['o'], s):
                        new = self.arith(op[0], self.getlv(s2, l), self.valof(s2, vs[0]), 'double')
                        self.setlv(s2, l, new, n['l'])
                        out.append((s2, new))
                    continue
                if op == '=' and n.get('o') is not None and len(vs) == 1:
                    for s2, l in self.lv(n['o'], s):
                        v = self.valof(s2, vs[0])
                        self.setlv(s2, l, v, n['l'])
                        out.append((s2, l if want_lv else v))
                    continue
                if short == 'inv' and o is not None and self.is_field_type(self.u.type(n['t'])):
                    out.append((s, inv(self.load(s, o))))
                    continue
                const = n.get('cm') or (o is None)
                args = []
                for v in vs:
                    if isinstance(v, tuple) and v and v[0] == 'byref':
                        args.append(s.env.get(v[1][1]))
                    else:
                        args.append(v)
                mutating = [v for i, v in enumerate(vs) if i in mr]
                if name.startswith('std::') and short in ('emplace_back', 'push_back', 'emplace', 'insert', 'emplace_hint', 'push', 'make_pair', 'make_tuple', 'forward'):
                    mutating = [v for v in mutating if isinstance(v, tuple) and v and v[0] in ('it', 'ptr')]      # forwarding references only copy lvalues
                pure = const and not mutating
                stamp = 0
                for t in ([o] if o is not None else []) + args:
                    if isinstance(t, tuple):
                        r = strip_ld(t)
                        if isinstance(r, tuple) and r and r[0] in ('f', 'ix', 'v', 'this'):
                            stamp = max(stamp, s.stamp(r))
                if pure:
                    t = ('app', name, tuple(([strip_ld(o)] if o is not None else []) + args), stamp)
                    s.trace.append(Ev('pure', name, o, tuple(args), n['l'], self.cur, t))
                    if n.get('noret'):
                        if name not in ('__assert_fail', 'abort', 'std::abort'):      # the program ends there
                            self.thrown.append((s, 'throw', None))
                        continue
                    out.append((s, t))
                else:
                    res_t = ('app', name, tuple(([strip_ld(o)] if o is not None else []) + args), next(_uid))
                    ev = Ev('call', name, strip_ld(o) if o is not None else None, tuple(args), n['l'], self.cur, res_t)
                    ev.vals = tuple(self.whole(s, v) for v in args)
                    if n.get('r'):
                        ev.ctx = tuple(x for a_ in args for x in self.stale(s, a_))
                    s.trace.append(ev)
                    if o is not None and not n.get('cm') and isinstance(strip_ld(o), tuple):
                        if not (name.startswith('std::') and short in ('find', 'lower_bound', 'upper_bound')):
                            s.mutate(strip_ld(o))
                    for v in mutating:
                        if isinstance(v, tuple) and v and v[0] == 'byref':
                            s.env[v[1][1]] = ('sym', '%s~' % v[1][2], next(_uid))
                        elif isinstance(v, tuple) and v and v[0] in ('f', 'ix', 'v', 'this', 'ld'):
                            s.mutate(strip_ld(v))
                        elif isinstance(v, tuple) and v and v[0] in ('it', 'ptr'):
                            s.mutate(strip_ld(v[1]))
                    if n.get('noret'):
                        self.thrown.append((s, 'throw', None))
                        continue
                    out.append((s, res_t))
        return out

    def whole(self, st, v):
        """value of a local object passed by reference, when it is known"""
        if isinstance(v, tuple) and v and v[0] == 'v':
            if v in st.store:
                return st.store[v]
            fs = [(p[2], x) for p, x in st.store.items() if isinstance(p, tuple) and p[0] == 'f' and p[1] == v]
            if fs:
                return ('tup', tuple(sorted(fs, key=lambda y: y[0])))
        return v

    def stale(self, st, t):
        """loads inside t that were made before the last change of what they read"""
        out = []
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if not isinstance(x, tuple) or x in seen:
                continue
            seen.add(x)
            if len(x) == 3 and x[0] in ('ld', 'size') and isinstance(x[1], tuple):
                if st.stamp(x[1]) != x[2]:
                    out.append(x[1])
            stack.extend(y for y in x if isinstance(y, tuple))
        return out

    def valof(self, st, v):
        if isinstance(v, tuple) and v and v[0] in ('f', 'ix', 'v'):
            return self.load(st, v)
        return v

    # ---------------------------------------------------------------- statements
    def st(self, n, st):
        """-> [(st, exit, val)] exit in n(ormal) b c ret throw"""
        if n is None:
            return [(st, 'n', None)]
        save = self.thrown
        self.thrown = []
        out = getattr(self, 'st_' + n['k'], self.st_other)(n, st)
        out = out + self.thrown
        self.thrown = save
        if len(out) > self.maxpaths:
            raise Limit('too many paths in %s' % self.fstack[0])
        return out

    def st_other(self, n, st):
        return [(st, 'n', None)]

    def st_seq(self, n, st):
        cur = [(st, 'n', None)]
        for x in n['s']:
            nxt = []
            for s, ex, v in cur:
                if ex == 'n':
                    nxt.extend(self.st(x, s))
                else:
                    nxt.append((s, ex, v))
            cur = nxt
        return cur

    def st_x(self, n, st):
        e = n['e']
        if e['k'] == 'throw':
            out = []
            for s, v in self.ev(e.get('e'), st):
                s.trace.append(Ev('throw', 'throw', None, (v,), n['l'], self.cur))
                out.append((s, 'throw', v))
            return out
        return [(s, 'n', None) for s, v in self.ev(e, st)]

    def st_decl(self, n, st):
        cur = [st]
        for v in n['v']:
            nxt = []
            for s in cur:
                nxt.extend(self.decl1(v, s))
            cur = nxt
        return [(s, 'n', None) for s in cur]

    def decl1(self, v, st):
        t = self.u.type(v['t'])
        d = v['d']
        mut = self.mutated_vars(self.cur)
        if v.get('ref') and v.get('i'):
            out = []
            for s, l in self.lv(v['i'], st):
                if isinstance(l, tuple) and l and l[0] == 'envvar':
                    val = s.env.get(l[1])
                    if isinstance(val, tuple) and val and val[0] == 'lv':
                        s.env[d] = val
                    else:
                        r = ('v', v['n'], next(_uid))
                        s.store[r] = val
                        s.env[l[1]] = ('lv', r)
                        s.env[d] = ('lv', r)
                elif isinstance(l, tuple) and l and l[0] in ('f', 'ix', 'v', 'this'):
                    s.env[d] = ('lv', l)
                else:
                    s.env[d] = l
                self.bindings(v, s, l)
                out.append(s)
            return out
        if v.get('binds'):
            out = []
            for s, val in self.ev(v.get('i'), st):
                self.bindings(v, s, val)
                out.append(s)
            return out
        if self.is_scalar_type(t):
            if not v.get('i'):
                st.env[d] = ('sym', v['n'] + '?', next(_uid))
                return [st]
            out = []
            for s, val in self.ev(v['i'], st):
                s.env[d] = val
                out.append(s)
            return out
        if '[' in t and t.endswith(']') or d in mut or not v.get('i'):
            out = []
            for s, val in self.ev(v.get('i'), st):
                r = ('v', v['n'], next(_uid))
                s.env[d] = ('lv', r)
                s.trace.append(Ev('set', 'init', r, (val,), v['l'], self.cur))
                if val is not None:
                    s.store[r] = val if not (isinstance(val, tuple) and val and val[0] in ('app',)) else s.store.get(r, val)
                    if isinstance(val, tuple) and val and val[0] == 'app':
                        s.store.pop(r, None)
                out.append(s)
            return out
        out = []
        for s, val in self.ev(v['i'], st):
            s.env[d] = val
            out.append(s)
        return out

    def bindings(self, v, s, val):
        for i, b in enumerate(v.get('binds', ())):
            if isinstance(val, tuple) and val and val[0] == 'tup':
                s.env[b['d']] = val[1][i][1]
            else:
                nm = ('first', 'second')[i] if i < 2 else 'get%d' % i
                x = self.field(val, nm)
                s.env[b['d']] = ('lv', x) if isinstance(x, tuple) and x and x[0] == 'f' else x

    def st_if(self, n, st):
        cur = [(st, 'n', None)]
        if n.get('init'):
            cur = self.st(n['init'], st)
        out = []
        for s, ex, v in cur:
            if n.get('cv'):
                for s2 in self.decl1(n['cv'], s):
                    for s3, b in self.cond(n['c'], s2):
                        x = n['x'] if b else n.get('y')
                        out.extend(self.st(x, s3))
                continue
            for s2, b in self.cond(n['c'], s):
                out.extend(self.st(n['x'] if b else n.get('y'), s2))
        return out

    def st_ret(self, n, st):
        if n.get('e') is None:
            return [(st, 'ret', None)]
        rt = self.u.type(self.cur.d['ret'])
        if rt.endswith('&'):
            return [(s, 'ret', self.obj_of(s, v)) for s, v in self.lv(n['e'], st)]
        if n['e']['k'] == 'throw':
            return self.st_x({'k': 'x', 'e': n['e'], 'l': n['l']}, st)
        return [(s, 'ret', v) for s, v in self.ev(n['e'], st)]

    def st_break(self, n, st):
        return [(st, 'b', None)]

    def st_continue(self, n, st):
        return [(st, 'c', None)]

    def st_try(self, n, st):
        out = []
        for s, ex, v in self.st(n['b'], st):
            if ex == 'throw' and n['h']:
                for h in n['h']:
                    out.extend(self.st(h, s.clone()))
            else:
                out.append((s, ex, v))
        return out

    def st_omp(self, n, st):
        oid = next(_uid)
        st.trace.append(Ev('omp', n['dir'], None, (oid,), n['l'], self.cur))
        out = []
        if n.get('b') is None:
            return [(st, 'n', None)]
        for s, ex, v in self.st(n['b'], st):
            s.trace.append(Ev('ompend', n['dir'], None, (oid,), n['l'], self.cur))
            out.append((s, ex, v))
        return out

    def st_switch(self, n, st):
        out = []
        body = n['b']['s'] if n['b'] and n['b']['k'] == 'seq' else [n['b']]
        labels = []   # (value or None, index)
        flat = []
        for x in body:
            while x and x['k'] in ('case', 'default'):
                labels.append((x.get('v') if x['k'] == 'case' else None, len(flat)))
                x = x['b']
            flat.append(x)
        for s, v in self.ev(n['c'], st):
            rest = s
            done = False
            dflt = [i for (c, i) in labels if c is None]
            for c, i in labels:
                if c is None:
                    continue
                (s1, cv), = self.ev(c, rest)
                br = self.branch(s1, self.cmp_term('==', v, cv), n['l'])
                rest = None
                for s2, b in br:
                    if b:
                        out.extend(self.unbrk(self.st_seq({'s': flat[i:]}, s2)))
                    else:
                        rest = s2
                if rest is None:
                    break
            if rest is not None:
                if dflt:
                    out.extend(self.unbrk(self.st_seq({'s': flat[dflt[0]:]}, rest)))
                else:
                    out.append((rest, 'n', None))
        return out

    def unbrk(self, res):
        return [(s, 'n' if ex == 'b' else ex, v) for s, ex, v in res]

    # ---------------------------------------------------------------- loops
    def st_for(self, n, st):
        out = []
        cur = self.st(n['init'], st) if n.get('init') else [(st, 'n', None)]
        for s, ex, v in cur:
            out.extend(self.loop(n, s, n.get('c'), n['b'], n.get('inc'), 'for'))
        return out

    def st_while(self, n, st):
        return self.loop(n, st, n['c'], n['b'], None, 'while')

    def st_do(self, n, st):
        return self.loop(n, st, n['c'], n['b'], None, 'do')

    def st_rfor(self, n, st):
        out = []
        for s, r in self.lv(n['r'], st):
            r = self.obj_of(s, r)
            out.extend(self.loop(n, s, None, n['b'], None, 'rfor', r))
        return out

    def assigned(self, nodes):
        """scalar variables assigned in the nodes (by decl id)"""
        r = {}
        for n0 in nodes:
            if n0 is None:
                continue
            lst = [n0] if isinstance(n0, dict) else n0
            for top in lst:
                for n in [top] + list(walk(list(children(top)))):
                    k = n.get('k')
                    t = None
                    if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                        t = n['x']
                    elif k == 'un' and n['op'] in ('++', '--'):
                        t = n['e']
                    elif k == 'call' and n.get('op') in ('++', '--', '+=', '-=', '=', '*=', '/=') and n.get('o') is not None:
                        t = n['o']
                    elif k == 'call':
                        for i in (() if copies(n) else n.get('mr', ())):
                            if i < len(n['a']) and n['a'][i].get('k') == 'var':
                                r[n['a'][i]['d']] = n['a'][i]['n']
                    while t and t.get('k') == 'cast':
                        t = t['e']
                    if t and t.get('k') == 'var':
                        r[t['d']] = t['n']
                    if k == 'lambda':
                        f = self.u.byid.get(n['fid'])
                        if f is not None and not f.dep:
                            r.update(self.assigned([f.d['b']]))
        return r

    def loop(self, n, st, c, body, inc, kind, rng=None):
        L = Loop()
        L.id = next(_uid)
        L.line, L.kind, L.rng, L.fn, L.omp = n['l'], kind, rng, self.cur, None
        asg = self.assigned([c, body, inc])
        L.start = {}
        L.syms = {}
        L.decl, L.var = n.get('v'), None

        def head(s, mutated):
            for d, nm in asg.items():
                v = s.env.get(d)
                if v is None:
                    continue
                if isinstance(v, tuple) and v and v[0] == 'lv':
                    continue
                L.start[d] = v
                if isinstance(v, tuple) and v and v[0] in ('it', 'rit'):
                    x = ('sym', nm, L.id * 1000 + 1)
                    s.env[d] = (v[0], v[1], x)
                else:
                    x = ('sym', nm, L.id * 1000)
                    s.env[d] = x
                L.syms[d] = (nm, x)
            for m in mutated:
                s.mutate(m)
            return s

        # pass 1: find what the body may change
        mutated = []
        trial = head(st.clone(), [])
        base_ver = dict(trial.ver)
        trial.trace = []
        changed = set()
        for s, ex, v in self.iterate(L, trial, c, body, inc, kind, rng):
            for p, ver in s.ver.items():
                if base_ver.get(p) != ver:
                    changed.add(self.generalise(p, asg, L))
        mutated = sorted(changed, key=key)
        # pass 2
        s0 = head(st, mutated)
        entry_trace = s0.trace
        s0.trace = []
        pre = State()
        pre.env, pre.store, pre.ver, pre.facts, pre.trace = dict(s0.env), dict(s0.store), dict(s0.ver), dict(s0.facts), []
        res = self.iterate(L, s0, c, body, inc, kind, rng)
        L.paths = []
        rets, breaks, exits = [], [], []
        for s, ex, v in res:
            p = Path()
            p.trace, p.exit, p.val, p.env, p.st, p.line = list(s.trace), ex, v, dict(s.env), None, n['l']
            if ex == 'exit':      # condition false at loop head
                exits.append((s, p))
                continue
            L.paths.append(p)
            if ex == 'b':
                breaks.append((s, p))
            elif ex in ('ret', 'throw'):
                rets.append((s, p, ex, v))
        out = []
        L.exit = [p for _, p in exits]

        def leave(s, p):
            s.trace = list(entry_trace) + [L, Leave(L, p)]
            return s

        if kind == 'rfor':
            s = pre.clone()
            s.trace = list(entry_trace) + [L]
            out.append((s, 'n', None))
        for s, p in exits + breaks:
            out.append((leave(s, p), 'n', None))
        for s, p, ex, v in rets:
            out.append((leave(s, p), ex, v))
        return out

    def generalise(self, p, asg, L):
        """drop indices that depend on loop variables"""
        syms = {x for (nm, x) in L.syms.values()} | {('sym', 'iv', L.id)}
        while isinstance(p, tuple) and p and p[0] in ('f', 'ix'):
            q = p
            bad = None
            while isinstance(q, tuple) and q and q[0] in ('f', 'ix', 'ld'):
                if q[0] == 'ix' and any(x in syms or (isinstance(x, tuple) and x and x[0] == 'sym' and x[2] >= L.id) for x in subterms(q[2]) if isinstance(x, tuple)):
                    bad = q
                q = q[1]
            if bad is None:
                return p
            p = bad[1]
        return p

    def iterate(self, L, s, c, body, inc, kind, rng):
        """one symbolic iteration -> [(state, exit, val)], exit 'exit' for the loop condition being false"""
        out = []
        if kind == 'rfor':
            iv = ('sym', 'iv', L.id)
            L.var = iv
            base = strip_ld(rng)
            if isinstance(rng, tuple) and rng and rng[0] in ('f', 'ix', 'v', 'ld', 'this'):
                el = self.index(rng if rng[0] == 'ld' and False else base, iv)
            else:
                el = ('ix', rng, iv)
            decl = L.decl
            d = decl['d']
            t = self.u.type(decl['t'])
            if decl.get('ref'):
                s.env[d] = ('lv', el)
            elif self.is_scalar_type(t):
                s.env[d] = self.load(s, el)
            elif d in self.mutated_vars(self.cur):
                r = ('v', decl['n'], next(_uid))
                s.store[r] = self.load(s, el)
                s.env[d] = ('lv', r)
            else:
                s.env[d] = self.load(s, el)
            self.bindings(decl, s, el)
            for s2, ex, v in self.st(body, s):
                out.append((s2, 'n' if ex == 'c' else ex, v))
            return out
        if kind == 'do':
            for s2, ex, v in self.st(body, s):
                if ex in ('n', 'c'):
                    for s3, b in self.cond(c, s2):
                        out.append((s3, 'n' if b else 'b', None))
                else:
                    out.append((s2, ex, v))
            return out
        conds = self.cond(c, s) if c is not None else [(s, True)]
        for s1, b in conds:
            if not b:
                out.append((s1, 'exit', None))
                continue
            for s2, ex, v in self.st(body, s1):
                if ex in ('n', 'c'):
                    if inc is not None:
                        for s3, _ in self.ev(inc, s2):
                            out.append((s3, 'n', None))
                    else:
                        out.append((s2, 'n', None))
                else:
                    out.append((s2, ex, v))
        return out
