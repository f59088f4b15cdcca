"""SQL workload generator and reference semantics (independent of the engine's code).

The oracle is a *transition* oracle: expected results are computed from the state observed right before a statement
(raw dump of the tables involved), so one statement kind is judged without trusting any other."""
import calendar, math, random
from collections import Counter

INT, DBL, TINY, VC, DATE, DT = 'INT', 'DOUBLE', 'TINYINT', 'VARCHAR', 'DATE', 'DATETIME'
TYPES = [INT, DBL, TINY, VC, DATE, DT]
TCODE = {VC: 0, INT: 1, TINY: 2, DBL: 3, DATE: 4, DT: 5}
RESERVED = set('''and as asc auto_increment between by case char character column comment create cross current_date
current_timestamp date datetime delete desc distinct double else end exists explain from group having if in index inner
insert int int4 integer into is join key left like limit mod not null on or order outer primary right select set table
then unique update value values varchar varcharacter when where xor true false unknown count tinyint using b x'''.split())


# names that are words of the language or of the items between the parser and the syntax tree (see vf._quote)
WORDS = sorted(RESERVED | set('''stmt name fieldname number string float bool isnull isnotnull isin isnotin cmp neg assign
column deleteone insertvals insertcols insertselect startcol columndef attr prikey key alias onexpr whereexpr groupbylist
groupby selectnodata selectall countall countfield orderbylist orderbyitem having caseval sub mul div add varchar unique
NAME STMT NULL CMP AND SELECT WHERE VALUES VARCHAR FIELDNAME Select Where True'''.split()))


class Col:
    __slots__ = ('name', 'type', 'n', 'notnull', 'extra')

    def __init__(self, name, type, n=0, notnull=False, extra=()):
        self.name, self.type, self.n, self.notnull, self.extra = name, type, n, notnull, tuple(extra)

    def ddl(self):
        t = [self.name]
        t += [VC + '(', str(self.n), ')'] if self.type == VC else [self.type]
        if self.notnull:
            t += ['NOT', 'NULL']
        return t


class Tab:
    def __init__(self, name, cols):
        self.name, self.cols = name, cols
        self.by = {c.name: c for c in cols}

    def idx(self, name):
        for i, c in enumerate(self.cols):
            if c.name == name:
                return i
        raise KeyError(name)


class T(str):
    """a token that has to be kept glued to the previous one"""


def render(toks):
    return ' '.join(toks) + ';'


# --- lexical noise -----------------------------------------------------------------------------------------------
PUNCT = {'(', ')', ',', '='}


def noisy(rng, toks, level=0.5):
    """an equivalent spelling of the statement: letter case of keywords, white space, comments, quoting of names"""
    out = []
    prev = None

    def sep(must):
        r = rng.random()
        if r < 0.45:
            return ' ' if must or rng.random() < 0.5 else ''
        k = rng.randrange(9)
        s = [' ', '\n', '\t', '  \n ', ' /* c; \' " */ ', '/**/', ' -- it\'s; "x\n', ' # note; `\n', '\r\n'][k]
        if s == '/**/' and must:
            s = ' /**/ '
        return s
    for t in toks:
        if prev is not None:
            must = not (prev in PUNCT or t in PUNCT or prev.endswith('(') or prev.endswith(')'))
            out.append(sep(must))
        low = t.lower()
        if low.rstrip('(') in RESERVED and low not in ('b', 'x'):
            t2 = ''.join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in t)
        else:
            t2 = t
            if t[0].isalpha() and t.replace('_', '').isalnum() and rng.random() < 0.15:
                t2 = '`' + t + '`'
            elif t == '<>' and rng.random() < 0.5:
                t2 = '!='
            elif t == '&&' or t == '||':
                pass
        if low == 'and' and rng.random() < 0.2:
            t2 = '&&'
        elif low == 'or' and rng.random() < 0.2:
            t2 = '||'
        out.append(t2)
        prev = t
    if rng.random() < 0.4:
        out.insert(0, rng.choice([' ', '\n', '/* lead */', '-- lead\n', '# lead\n']))
    out.append(rng.choice(['', ' ', '\n', '/* t */']) + ';' + rng.choice(['', ' ', '\n', '-- tail\n', '/* tail */']))
    return ''.join(out)


# --- values --------------------------------------------------------------------------------------------------------
INTS = [0, 1, -1, 2, 3, 5, 7, 10, 42, 127, 128, 255, 256, 32767, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32,
        2 ** 32 + 1, -2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63 - 2, -2 ** 63 + 1, 1000000007]
DBLS = ['0.0', '1.0', '-1.0', '0.5', '0.25', '-2.75', '3.141592653589793', '0.1', '0.2', '0.30000000000000004', '0.3',
        '1e10', '1.5E+3', '2.5e-3', '1e300', '1e-300', '123456789.123456789', '-0.001', '4294967296.0', '4294967297.0',
        '.5', '7.', '0.75', '0.999', '1.0000000000000002', '2147483648.5', '9007199254740993.0']
STRS = ['', 'a', 'b', 'A', 'ab', 'abc', 'x', 'hello', 'Hello', ' ', ' a', 'a ', "it's", "''", '%', '%s%n', 'a;b', '--', '#',
        '/* */', 'NULL', 'null', 'true', '0', '1', '-1', '1.5', 'SELECT', 'a,b', '(x)', '"q"', '`', 'tab\there', 'x=y',
        'a.b', 'caf\xc3\xa9', '\xff\xfe', '\x01\x7f', 'WHERE 1', '2020-01-02', '[a-z]', '^$.*', 'back\\slash',
        'zzzzzzzzzzzzzzzzzzzz']


def sqlstr(s):
    return "'" + s.replace("'", "''") + "'"


def days_in(y, m):
    return calendar.monthrange(y, m)[1]


def date_lit(rng, dt):
    y = rng.choice([1970, 1999, 2000, 2020, 2023, 2024, 1969, 2038, 1900, 2106, rng.randrange(1901, 2500)])
    m = rng.randrange(1, 13)
    d = rng.randrange(1, days_in(y, m) + 1)
    if rng.random() < 0.6:
        y, m, d = rng.choice([(2020, 1, 2), (2020, 1, 3), (2020, 2, 29), (2021, 12, 31), (1999, 12, 31), (1970, 1, 1),
                              (1969, 12, 30), (1969, 12, 31), (2038, 1, 20)])
    if not dt:
        return '%04d-%02d-%02d' % (y, m, d), calendar.timegm((y, m, d, 0, 0, 0))
    h, mi, s = rng.choice([(0, 0, 0), (3, 4, 5), (23, 59, 58), (23, 59, 59), (12, 30, 0), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
    v = calendar.timegm((y, m, d, h, mi, s))
    return '%04d-%02d-%02d %02d:%02d:%02d' % (y, m, d, h, mi, s), v


def dbl_text(rng):
    if rng.random() < 0.7:
        return rng.choice(DBLS)
    return repr(round(rng.uniform(-1000, 1000), rng.randrange(1, 12)))


class Pool:
    """literals of a type: (token, python value); small so that values collide"""

    def __init__(self, rng, small=None):
        self.rng = rng
        self.k = small or rng.choice([2, 3, 5, 12])
        self.sub = {}

    def near(self, ty):
        """a value that differs from one in use only a little, or only far from its start"""
        rng = self.rng
        v = rng.choice(self.sub[ty])[1]
        if ty == INT:
            w = v + rng.choice([1, -1]) * (1 << rng.choice([0, 0, 1, 8, 16, 31, 32, 33, 48, 53, 62]))
            return (str(w), w) if -2 ** 63 < w < 2 ** 63 else None
        if ty == DBL:
            w = rng.choice([math.nextafter(v, 1e9), math.nextafter(v, -1e9), v * (1 + 2 ** -30), v + 1e-9, -v, v + 1])
            x = repr(w)
            if float(x) != w or not math.isfinite(w):
                return None
            return (x, w) if w else ('0.0', 0.0)
        if ty == VC:
            n = rng.choice([0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255])
            b = bytearray((v or b'k') * (n // max(len(v), 1) + 1))[:max(n, len(v))] if rng.random() < 0.5 else bytearray(v)
            k = rng.randrange(4)
            if k == 0 or not b:
                b += bytes([rng.choice(b'ab A0')])
            elif k == 1:
                i = rng.choice([0, len(b) - 1, len(b) - 1, rng.randrange(len(b))])
                b[i] = rng.choice([x for x in b'abAB z' if x != b[i]])
            elif k == 2:
                b = b[:-1]
            else:
                b = bytearray(bytes(b).swapcase())
            if b.endswith(b'\\'):
                b = b[:-1]
            return sqlstr(b.decode('latin1')), bytes(b)
        return None

    def cluster(self, ty):
        """a few values next to each other, where a comparison that goes through another type can't tell them apart"""
        rng = self.rng
        if ty == INT:
            b = rng.choice([2 ** 53, 2 ** 53 + 2, 2 ** 62, 2 ** 63 - 4, -2 ** 63 + 3, -2 ** 53, 2 ** 31, -2 ** 31, 2 ** 32, 0])
            return [(str(b + d), b + d) for d in (0, 1, 2, -1, 3, -2)]
        if ty == DBL:
            v = rng.choice([0.1, 1.0, -1.0, 2.0 ** 53, 1e300, 1e-300, 16777217.0, 123.456])
            vs = [v]
            for _ in range(3):
                vs.append(math.nextafter(vs[-1], math.inf))
            return [(repr(v), v) for v in vs]
        return None

    def fresh(self, ty, n=None):
        rng = self.rng
        if self.sub.get(ty) and rng.random() < 0.3:
            r = self.near(ty)
            if r:
                return r
        if ty == INT:
            v = rng.choice(INTS) if rng.random() < 0.7 else rng.choice([rng.randrange(-50, 50), rng.getrandbits(63) - 2 ** 62])
            return str(v), v
        if ty == DBL:
            t = dbl_text(rng)
            v = float(t)
            if v == 0:
                v = 0.0
                t = '0.0'
            return t, v
        if ty == TINY:
            b = rng.random() < 0.5
            return ('true' if b else 'false'), int(b)
        if ty == VC:
            s = rng.choice(STRS) if rng.random() < 0.8 else ''.join(
                chr(rng.choice([rng.randrange(32, 92), rng.randrange(93, 127), rng.randrange(128, 256), 9])) for _ in range(rng.randrange(0, 40)))
            return sqlstr(s), s.encode('latin1')
        s, v = date_lit(rng, ty == DT)
        return sqlstr(s), v

    def lit(self, c):
        """a literal that fits column @c"""
        key = c.type
        p = self.sub.get(key)
        if p is None:
            p = self.sub[key] = []
            if key in (INT, DBL) and self.rng.random() < 0.12:
                p += self.cluster(key)[:max(self.k, 2)]
        if len(p) < self.k:
            p.append(self.fresh(key))
        t, v = self.rng.choice(p)
        if c.type == VC and c.n and len(v) >= c.n:
            v = v[:c.n - 1]
            if v.endswith(b'\\'):
                v = v[:-1]
            t = sqlstr(v.decode('latin1'))
        return t, v


def long_str(rng, n):
    s = ''.join(chr(rng.choice([rng.randrange(32, 92), rng.randrange(93, 127)])) for _ in range(n))
    return sqlstr(s), s.encode('latin1')


# --- names -----------------------------------------------------------------------------------------------------------
def names(rng, k, taken=()):
    out = []
    used = {t.lower() for t in taken}
    style = rng.randrange(5)
    if rng.random() < 0.14:
        style = rng.choice([5, 6, 7, 8])
        stem = 'n' * rng.choice([15, 30, 31, 62, 63, 64, 100, 120])
    while len(out) < k:
        if style == 8:
            n = 'Kwq5Zt_' + rng.choice(WORDS) + (str(len(out)) if rng.random() < 0.05 or len(out) > 40 else '')
        elif style == 7:
            n = rand_name(rng)
        elif style == 5:
            # long names that differ at their end only
            n = (stem + rng.choice(['_', 'x', '']) + str(len(out)))[:127]
        elif style == 6:
            # names that differ by letter case only
            n = ''.join(rng.choice(x) for x in (['aA', 'bB', 'cC', 'eE', 'zZ'][:max(3, k.bit_length())] if k < 9 else ['aA', 'bB', 'zZ', 'eE', 'hH', 'mM', 'qQ', 'wW'])) + ('_%d' % (len(out) // 8) if k > 30 else '')
            if n in out or n in taken:
                stem = stem[:-1]
                if not stem:
                    style = 3
                continue
            out.append(n)
            continue
        elif style == 0:
            n = 'c%d' % len(out)
        elif style == 1:
            n = 'a' * (len(out) + 1) if len(out) < 20 else 'k%d' % len(out)
        elif style == 2:
            n = rng.choice('abcdefghijkmnopqrstuvwyz') + ''.join(rng.choice('abcXYZ_019') for _ in range(rng.randrange(0, 6)))
        elif style == 3:
            n = 'col_' + ''.join(rng.choice('abcdefghij') for _ in range(3)) + str(len(out))
        else:
            n = rng.choice('fFgG') + str(rng.randrange(40)) + rng.choice(['', '_', 'x', '_1'])
        if rng.random() < 0.01:
            n = n + 'L' * rng.randrange(30, 110)
        n = n[:127]
        # names that differ only by letter case are legal, but don't mix them with keywords
        if n.lower() in RESERVED or n in out or n in taken or n.lower() in used:
            style = 3 if style in (2, 4) and rng.random() < 0.2 else style
            if style in (0, 1):
                n = 'q%d_%d' % (len(out), rng.randrange(1000))
                if n in out or n in taken:
                    continue
            else:
                continue
        out.append(n)
        used.add(n.lower())
    if rng.random() < 0.06:
        i = rng.randrange(len(out))
        out[i] = full_name(rng, out[i])
    return out


def full_name(rng, n):
    """@n, made as long as a name can be"""
    size = 127 + (7 if n.startswith('Kwq5Zt_') else 0)
    if len(n) >= size:
        return n
    n += rng.choice('xy_')
    return n + ''.join(rng.choice('abcXYZ_019') for _ in range(size - len(n)))


def rand_name(rng):
    """any name that isn't a keyword"""
    import string
    while True:
        n = rng.choice(string.ascii_letters) + ''.join(rng.choice(string.ascii_letters + string.digits + '_') for _ in range(rng.choice([1, 3, 8, 20, 60, 126])))
        if n.lower() not in RESERVED:
            return n


def tabname(rng, name):
    """@name, or now and then a long name that ends with it"""
    r = rng.random()
    if r > 0.95:
        k = int(name[-1]) % 4 if name[-1:].isdigit() else 0
        return 'Kwq5Zt_' + rng.choice(WORDS[k::4])
    if r > 0.93:
        return full_name(rng, 'F')[:127 - len(name) - 8 * (not name)] + name
    return 'W' * rng.choice([30, 62, 100, 120]) + name if r < 0.06 else (rand_name(rng)[:90] + name if r < 0.12 else name)


def mktable(rng, name, taken=(), ncols=None, types=None, p_notnull=0.2):
    k = ncols or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 8, 9, 12, 17])
    cols = []
    for nm in names(rng, k, taken):
        ty = rng.choice(types or TYPES)
        n = rng.choice([2, 5, 10, 20, 50, 100, 255, 300, 1000]) if ty == VC else 0
        cols.append(Col(nm, ty, n, rng.random() < p_notnull))
    return Tab(name, cols)


def create_toks(t):
    toks = ['CREATE', 'TABLE', t.name, '(']
    for i, c in enumerate(t.cols):
        if i:
            toks.append(',')
        toks += c.ddl()
    toks.append(')')
    return toks


def rand_row(rng, t, pool, p_null=0.2):
    out = []
    for c in t.cols:
        if not c.notnull and rng.random() < p_null:
            out.append(('NULL', None))
        else:
            out.append(pool.lit(c))
    return out


def insert_toks(rng, t, rows, cols=None, into=True):
    toks = ['INSERT'] + (['INTO'] if into else []) + [t.name]
    if cols is not None:
        toks.append('(')
        for i, c in enumerate(cols):
            toks += ([','] if i else []) + [c]
        toks.append(')')
    toks.append('VALUES')
    for i, r in enumerate(rows):
        if i:
            toks.append(',')
        toks.append('(')
        for j, x in enumerate(r):
            if j:
                toks.append(',')
            toks += x if isinstance(x, list) else [x]
        toks.append(')')
    return toks


# --- conditions --------------------------------------------------------------------------------------------------------
PREC = {'or': 1, 'xor': 2, 'and': 3, 'in': 4, 'null': 4, 'cmp': 5}
OPS = ['=', '<>', '<', '<=', '>', '>=']
MIRROR = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '<>': '<>'}


def ops_for(ty):
    return OPS if ty in (INT, DBL, DATE, DT) else ['=', '<>']


def rand_cond(rng, cols, pool, depth, qual=None, features=('cmp', 'in', 'null', 'ff', 'vf', 'vv', 'cnull')):
    """cols: list of Col; qual: {col name: prefix or None}"""
    if depth > 0 and rng.random() < 0.6:
        return (rng.choice(['and', 'or', 'and', 'or', 'xor']), rand_cond(rng, cols, pool, depth - 1, qual, features),
                rand_cond(rng, cols, pool, depth - 1, qual, features))
    c = rng.choice(cols)
    r = rng.random()
    if r < 0.12 and 'null' in features:
        return ('null', c, rng.random() < 0.5)
    if r < 0.28 and 'in' in features:
        return ('in', c, [pool.lit(c) for _ in range(rng.choice([1, 2, 3, 3, 6]))], rng.random() < 0.45)
    if r < 0.40 and 'ff' in features:
        same = [d for d in cols if d.type == c.type]
        d = rng.choice(same)
        return ('cmp', rng.choice(ops_for(c.type)), ('c', c), ('c', d))
    if r < 0.45 and 'vv' in features:
        ty = rng.choice([INT, DBL, VC, TINY])
        a, b = pool.fresh(ty), pool.fresh(ty)
        if rng.random() < 0.3:
            b = a
        return ('cmp', rng.choice(ops_for(ty)), ('v', ty) + a, ('v', ty) + b)
    if r < 0.49 and 'cnull' in features:
        return ('cmp', rng.choice(['=', '<>']), ('c', c), ('v', c.type, 'NULL', None))
    v = pool.lit(c) if rng.random() < 0.85 else None
    if v is None:
        v = pool.fresh(c.type)
    a, b = ('c', c), ('v', c.type) + v
    if rng.random() < 0.3 and 'vf' in features:
        a, b = b, a
    return ('cmp', rng.choice(ops_for(c.type)), a, b)


def big_cond(rng, cols, pool, n, features=('cmp', 'in', 'null', 'ff', 'vf', 'vv', 'cnull')):
    """a condition of about @n comparisons: a chain, a chain to the right, or a bushy tree; or long IN lists"""
    leaf = lambda: rand_cond(rng, cols, pool, 0, features=features)
    op = rng.choice([['or'], ['and', 'or', 'xor'], ['xor'], ['or', 'and']])
    shape = rng.randrange(4)
    if shape == 0 and 'in' in features:
        c = rng.choice(cols)
        vals = [pool.lit(c) if rng.random() < 0.1 else pool.fresh(c.type) for _ in range(n * 3)]
        if c.type == VC:
            vals = [v for v in vals if not v[1].endswith(b'\\')] or [pool.lit(c)]
        a = ('in', c, vals, rng.random() < 0.3)
        return a if rng.random() < 0.5 else (rng.choice(['and', 'or', 'xor']), a, leaf())
    r = leaf()
    if shape == 3:
        todo = [leaf() for _ in range(n)]
        while len(todo) > 1:
            i = rng.randrange(len(todo) - 1)
            todo[i:i + 2] = [(rng.choice(op), todo[i], todo[i + 1])]
        return todo[0]
    for _ in range(n - 1):
        r = (rng.choice(op), r, leaf()) if shape < 2 else (rng.choice(op), leaf(), r)
    return r


def cond_cols(c):
    if c[0] in ('and', 'or', 'xor'):
        return cond_cols(c[1]) + cond_cols(c[2])
    if c[0] == 'cmp':
        return [x[1] for x in c[2:] if x[0] == 'c']
    return [c[1]]


def cond_ops(c):
    if c[0] in ('and', 'or', 'xor'):
        return [c[0]] + cond_ops(c[1]) + cond_ops(c[2])
    if c[0] == 'cmp':
        return ['%s%s%s:%s' % (c[2][0], c[1], c[3][0], (c[2] if c[2][0] == 'v' else (0, c[2][1].type))[1])]
    if c[0] == 'in':
        return [('notin' if c[3] else 'in') + ':' + c[1].type]
    return [('isnotnull' if c[2] else 'isnull') + ':' + c[1].type]


def cond_toks(rng, c, ref, extra=0.15):
    """tokens with (nearly) minimal parentheses, so that operator precedence and associativity matter"""
    def go(c):
        k = c[0]
        if k in ('and', 'or', 'xor'):
            p = PREC[k]
            l, r = go(c[1]), go(c[2])
            if PREC[c[1][0]] < p or rng.random() < extra:
                l = ['('] + l + [')']
            if PREC[c[2][0]] <= p or rng.random() < extra:
                r = ['('] + r + [')']
            return l + [k.upper()] + r
        if k == 'cmp':
            f = lambda x: [ref(x[1])] if x[0] == 'c' else [x[2]]
            return f(c[2]) + [c[1]] + f(c[3])
        if k == 'in':
            t = [ref(c[1])] + (['NOT'] if c[3] else []) + ['IN', '(']
            for i, v in enumerate(c[2]):
                t += ([','] if i else []) + [v[0]]
            return t + [')']
        return [ref(c[1]), 'IS'] + (['NOT'] if c[2] else []) + ['NULL']
    return go(c)


def cmpv(op, a, b):
    if a is None or b is None:
        return False
    return {'=': a == b, '<>': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def ev(c, row):
    """row: {Col: value}. A comparison that involves NULL isn't satisfied."""
    k = c[0]
    if k == 'and':
        return ev(c[1], row) and ev(c[2], row)
    if k == 'or':
        return ev(c[1], row) or ev(c[2], row)
    if k == 'xor':
        return ev(c[1], row) != ev(c[2], row)
    if k == 'cmp':
        f = lambda x: row[x[1]] if x[0] == 'c' else x[3]
        return cmpv(c[1], f(c[2]), f(c[3]))
    if k == 'in':
        v = row[c[1]]
        if v is None:
            return False
        return any(v == x[1] for x in c[2]) != c[3]
    return (row[c[1]] is None) != c[2]


# --- integer / double expressions ----------------------------------------------------------------------------------------
class Overflow(Exception):
    pass


def rand_expr(rng, ty, depth):
    if depth <= 0 or rng.random() < 0.25:
        if ty == INT:
            v = rng.choice([0, 1, 2, 3, 7, 10, 100, 2 ** 31, 2 ** 32 + 1, 2 ** 62, 2 ** 63 - 1, rng.randrange(0, 1000)])
            return ('lit', str(v), v)
        t = dbl_text(rng).lstrip('-')
        return ('lit', t, float(t))
    if rng.random() < 0.1:
        return ('neg', rand_expr(rng, ty, depth - 1))
    return (rng.choice('++--**/%'), rand_expr(rng, ty, depth - 1), rand_expr(rng, ty, depth - 1))


EPREC = {'+': 1, '-': 1, '*': 2, '/': 2, '%': 2, 'neg': 3, 'lit': 4}


def expr_toks(rng, e, extra=0.1):
    if e[0] == 'lit':
        return [e[1]]
    if e[0] == 'neg':
        t = expr_toks(rng, e[1], extra)
        return ['-', '('] + t + [')']
    l, r = expr_toks(rng, e[1], extra), expr_toks(rng, e[2], extra)
    p = EPREC[e[0]]
    if EPREC[e[1][0]] < p or rng.random() < extra:
        l = ['('] + l + [')']
    if EPREC[e[2][0]] <= p or rng.random() < extra:
        r = ['('] + r + [')']
    return l + [e[0]] + r


def eval_expr(e, ty):
    """None stands for NULL; raises Overflow"""
    if e[0] == 'lit':
        return e[2]
    if e[0] == 'neg':
        v = eval_expr(e[1], ty)
        if v is None:
            return None
        v = -v
    else:
        a, b = eval_expr(e[1], ty), eval_expr(e[2], ty)
        if a is None or b is None:
            return None
        o = e[0]
        if ty == INT:
            if o in '/%' and b == 0:
                return None
            if o == '+':
                v = a + b
            elif o == '-':
                v = a - b
            elif o == '*':
                v = a * b
            else:
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                v = q if o == '/' else a - q * b
        else:
            import math
            try:
                if o == '+':
                    v = a + b
                elif o == '-':
                    v = a - b
                elif o == '*':
                    v = a * b
                elif o == '/':
                    if b == 0:
                        return None
                    v = a / b
                else:
                    if float(math.trunc(b)) == 0.0:
                        return None
                    v = math.fmod(math.trunc(a), math.trunc(b))
            except OverflowError:
                raise Overflow()
            if v in (float('inf'), float('-inf')) or v != v:
                raise Overflow()
    if ty == INT and not (-2 ** 63 <= v < 2 ** 63):
        raise Overflow()
    return v


# --- event decoding ---------------------------------------------------------------------------------------------------------
def decode(ty, cell):
    if cell is None:
        return None
    if ty == VC:
        return bytes.fromhex(cell)
    if ty == DBL:
        return float.fromhex(cell)
    return cell


CODET = {v: k for k, v in TCODE.items()}


def rows_of(event, key='rows'):
    tys = [CODET.get(c[1]) for c in event['cols']]
    return [tuple(decode(t, x) for t, x in zip(tys, r)) for r in event[key]]


def canon(v):
    if isinstance(v, float):
        return ('d', (v + 0.0 if v != 0 else 0.0).hex())
    return v


def bag(rows):
    return Counter(tuple(canon(v) for v in r) for r in rows)


def colnames(event):
    return [bytes.fromhex(c[0]).decode('latin1') for c in event['cols']]


def show(counter, k=6):
    l = list(counter.items())[:k]
    return ', '.join('%s x%d' % (str(r)[:160], n) for r, n in l) + (' ...' if len(counter) > k else '')


def diff(exp, got):
    miss, more = exp - got, got - exp
    if not miss and not more:
        return None
    return 'missing {%s}; unexpected {%s}' % (show(miss), show(more))
