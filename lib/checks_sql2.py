"""More checks over SQL: rejection, catalog, cursors, hostile text, leaks, lexical equivalence, isolation, histories."""
import json, os, random, re
from collections import Counter
import sqlm, vf
from sqlm import *
from sess import Sess
from vf import Result, derive, run_driver, crash_summary, died
from checks_sql import (ERR, OKX, OKR, errtext, setup_table, setup_more, nrows_for, ev_, rows_cur, sel_from, colcheck)


# =====================================================================================================================
# P07 a rejected statement has no effect and says why
WRONG = {INT: [DBL, TINY, VC], DBL: [INT, TINY, VC], TINY: [INT, DBL, VC], VC: [INT, DBL, TINY],
         DATE: [INT, DBL, TINY, 'badstr'], DT: [INT, DBL, TINY, 'badstr']}
BADDATES = ["'hello'", "''", "'2020-13-01'", "'20-aa-01'", "'2020-01-02x'", "'2020/01/02'", "'01-02-2020x'"]
BADDTS = ["'hello'", "''", "'2020-13-01 00:00:00'", "'2020-01-02'", "'2020-01-02 10:20'", "'2020-01-02 10:20:30z'", "'2020-01-02T10:20:30'"]


def bad_lit(rng, c, pool):
    w = rng.choice(WRONG[c.type])
    if w == 'badstr':
        return rng.choice(BADDATES if c.type == DATE else BADDTS)
    if w == VC:
        return "'zz'"
    return pool.fresh(w)[0]


def other_name(rng, t, tabs):
    while True:
        n = rng.choice(['nope', 'zz', 'missing_1', t.cols[0].name + 'x', t.cols[-1].name[:-1] or 'qq', t.name + '2', rng.choice(t.cols).name.swapcase()])
        r = rng.random()
        if r < 0.1:
            # as long as a name can't be, the part that fits is a name that exists
            n = rng.choice([rng.choice(t.cols).name, t.name, n])
            n += 'x' * (rng.choice([128, 129, 254, 255, 256, 257, 511, 512, 1000]) - len(n))
        elif r < 0.2:
            # no name at all, with a name that exists at the beginning
            n = rng.choice([rng.choice(t.cols).name, t.name, n])
            n = '`' + (n[7:] if n.startswith('Kwq5Zt_') else n) + rng.choice([' ', ' x', '-', ' 1', ' 1 1', ';', '%s', '(', ')', ' ISNULL', "'", '"', '\t', '.', ',', '*', '/*', '--', '\xe9']) + '`'
            return n
        if n.startswith('Kwq5Zt_') and n[7:].lower() in [x.name[7:].lower() for x in t.cols + tabs if x.name.startswith('Kwq5Zt_')]:
            continue
        if n and n not in t.by and n not in [x.name for x in tabs] and n[0].isalpha() and n.lower() not in RESERVED:
            return n


def bad_leaf(rng, t, pool, kind, o=None):
    """(class, tokens) of a comparison that can't be evaluated; never one that would need parentheses"""
    r = rng.randrange(5)
    c = rng.choice(t.cols)
    flip = lambda a, op, b: [b, sqlm.MIRROR[op], a] if rng.random() < 0.4 else [a, op, b]
    if r == 0:
        n = other_name(rng, t, [])
        k = rng.randrange(4)
        if k == 0:
            return 'unknown column IS NULL', [n, 'IS'] + (['NOT'] if rng.random() < 0.5 else []) + ['NULL']
        if k == 1:
            return 'unknown column and column', flip(n, rng.choice(['=', '<>']), c.name)
        return 'unknown column', flip(n, rng.choice(['=', '<>', '<']), rng.choice(['1', pool.lit(c)[0]]))
    if r == 1:
        if c.type in (DATE, DT):
            if rng.random() < 0.5:
                return 'type mismatch', flip(c.name, '=', rng.choice(['1', '1.5', 'true']))
            return 'no date', flip(c.name, rng.choice(['=', '<>', '<']), rng.choice(BADDATES if c.type == DATE else BADDTS))
        return 'type mismatch', flip(c.name, rng.choice(['=', '<>']), bad_lit(rng, c, pool))
    if r == 2:
        vs = [x for x in t.cols if x.type == VC]
        if vs:
            return 'ordering of strings', flip(rng.choice(vs).name, rng.choice(['<', '>', '<=', '>=']), "'a'")
        return 'unknown column', ['zz9', 'IS', 'NULL']
    if r == 3:
        vals = [pool.lit(c)[0] for _ in range(rng.choice([1, 1, 2, 5, 20]))]
        vals.insert(rng.choice([0, len(vals), rng.randrange(len(vals) + 1)]), rng.choice(['1', '1.5', 'true']) if c.type in (DATE, DT) else bad_lit(rng, c, pool))
        return 'IN of another type', [c.name, rng.choice(['IN', 'NOT IN']), '('] + [y for i, v in enumerate(vals) for y in ([','] if i else []) + [v]] + [')']
    a, b = rng.choice(t.cols), rng.choice(t.cols)
    if a.type != b.type and not {a.type, b.type} <= {DATE, DT}:
        return 'columns of different types', [a.name, rng.choice(['=', '<>']), b.name]
    return 'unknown column', [other_name(rng, t, []), 'IN', '(', '1', ')']


def bad_where(rng, t, pool, kind, o=None):
    """(class, tokens) of a condition with a comparison that can't be evaluated, alone or anywhere among good ones"""
    k, w = bad_leaf(rng, t, pool, kind, o)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        g = cond_toks(rng, rand_cond(rng, t.cols, pool, rng.choice([0, 0, 1, 2])), lambda c: c.name)
        x, y = (w, g) if rng.random() < 0.5 else (g, w)
        w = ['('] + x + [')', rng.choice(['AND', 'OR', 'XOR']), '('] + y + [')']
        k = k.replace(' (deep)', '') + ' (deep)'
    return k, w


def bad_expr(rng, c, pool):
    """an arithmetic expression that can't be the value of column @c"""
    if c.type not in (INT, DBL):
        ty = rng.choice([INT, DBL, c.type])
        lit = lambda: pool.fresh(ty)[0]
        return rng.choice([[lit(), '+', lit()], [lit(), '*', '(', lit(), '-', lit(), ')']] + ([['-', '(', lit(), ')']] if ty in (INT, DBL) else []))
    e = sqlm.expr_toks(rng, sqlm.rand_expr(rng, c.type, rng.choice([1, 2, 3])), 0.3)
    wrong = rng.choice(["'zz'", 'true', 'NULL', '1.5' if c.type == INT else '2', '0.0' if c.type == INT else '0'])
    at = [i for i, x in enumerate(e) if x[0].isdigit()]
    if len(e) == 1 or not at:
        return rng.choice([[wrong, '+'] + e, e + ['-', wrong], e + ['*', '('] + e + ['+', wrong, ')']])
    e[rng.choice([at[0], at[-1], rng.choice(at)])] = wrong
    return e


def bad_statement(rng, t, o, tabs, pool):
    """(class, sql) of a statement the engine has to reject"""
    kind = rng.choice(['insert'] * 6 + ['update'] * 4 + ['delete'] * 3 + ['select'] * 3 + ['create'] * 3 + ['syntax'] * 4)
    J = lambda toks: ' '.join(toks) + ';'
    good = lambda k: [[x[0] for x in rand_row(rng, t, pool)] for _ in range(k)]
    if kind == 'insert':
        k = rng.choice([1, 1, 2, 5, 40])
        at = rng.choice([0, k - 1, rng.randrange(k)])
        rows = good(k)
        r = rng.randrange(10)
        i = rng.randrange(len(t.cols))
        c = t.cols[i]
        where = 'first row' if at == 0 else 'later row'
        if r == 9:
            rows[at][i] = bad_expr(rng, c, pool)
            return 'INSERT wrong type in an expression ' + where, J(insert_toks(rng, t, rows))
        if r == 0:
            rows[at][i] = bad_lit(rng, c, pool)
            return 'INSERT wrong type ' + where, J(insert_toks(rng, t, rows))
        if r == 1:
            nn = [j for j, x in enumerate(t.cols) if x.notnull]
            if nn:
                j = rng.choice(nn)
                rows[at][j] = 'NULL' if t.cols[j].type not in (INT, DBL) or rng.random() < 0.5 else \
                    rng.choice([['1', '/', '0'], ['5', '%', '0']] if t.cols[j].type == INT else [['1.0', '/', '0.0'], ['2.5', '%', '0.0']])
                return 'INSERT NULL into NOT NULL ' + where, J(insert_toks(rng, t, rows))
            r = 2
        if r == 2:
            vs = [j for j, x in enumerate(t.cols) if x.type == VC]
            if vs:
                j = rng.choice(vs)
                n = t.cols[j].n + rng.choice([0, 1, 7, 300])
                rows[at][j] = "'" + ''.join(rng.choice('abcxyz _') for _ in range(n)) + "'"
                return 'INSERT string too long ' + where, J(insert_toks(rng, t, rows))
            r = 3
        if r == 3:
            ints = [j for j, x in enumerate(t.cols) if x.type == INT]
            if ints:
                j = rng.choice(ints)
                rows[at][j] = rng.choice(['9223372036854775808', '99999999999999999999', '-9223372036854775809',
                                          ['9223372036854775807', '+', '1'], ['4611686018427387904', '*', '2'],
                                          ['-9223372036854775808', '-', '1'], ['-9223372036854775808', '/', '-1']])
                return 'INSERT integer out of range ' + where, J(insert_toks(rng, t, rows))
            r = 4
        if r == 4:
            if rng.random() < 0.5:
                rows[at] = rows[at] + [pool.lit(c)[0]]
            elif len(rows[at]) > 1:
                rows[at] = rows[at][:-1]
            else:
                rows[at] = rows[at] * 2
            return 'INSERT wrong number of values ' + where, J(insert_toks(rng, t, rows))
        if r == 5:
            names_ = [x.name for x in t.cols]
            names_[i] = other_name(rng, t, tabs)
            return 'INSERT unknown column', J(insert_toks(rng, t, rows, names_))
        if r == 6:
            names_ = [x.name for x in t.cols] + [c.name]
            return 'INSERT column twice', J(insert_toks(rng, t, [x + [x[i]] for x in rows], names_))
        if r == 7:
            nn = [x for x in t.cols if x.notnull]
            rest = [x for x in t.cols if not nn or x is not nn[0]]
            if nn and rest:
                idx_ = [t.cols.index(x) for x in rest]
                return 'INSERT omits a NOT NULL column', J(insert_toks(rng, t, [[x[q] for q in idx_] for x in rows], [x.name for x in rest]))
            r = 8
        x = Tab(other_name(rng, t, tabs), t.cols)
        return 'INSERT unknown table', J(insert_toks(rng, x, rows))
    if kind == 'update':
        c = rng.choice(t.cols)
        r = rng.randrange(6)
        wh = ['WHERE'] + cond_toks(rng, rand_cond(rng, t.cols, pool, 1), lambda c: c.name) if rng.random() < 0.5 else []
        lit = pool.lit(c)[0]
        if r == 0:
            return 'UPDATE wrong type', J(['UPDATE', t.name, 'SET', c.name, '=', bad_lit(rng, c, pool)] + wh)
        if r == 1:
            nn = [x for x in t.cols if x.notnull]
            if nn:
                return 'UPDATE NULL into NOT NULL', J(['UPDATE', t.name, 'SET', rng.choice(nn).name, '=', 'NULL'] + wh)
            r = 2
        if r == 2:
            vs = [x for x in t.cols if x.type == VC]
            if vs:
                x = rng.choice(vs)
                return 'UPDATE string too long', J(['UPDATE', t.name, 'SET', x.name, '=', "'" + 'y' * (x.n + rng.choice([0, 1, 50])) + "'"] + wh)
            r = 3
        if r == 3:
            d = rng.choice(t.cols)
            return 'UPDATE unknown column', J(['UPDATE', t.name, 'SET', d.name, '=', pool.lit(d)[0], ',', other_name(rng, t, tabs), '=', lit] + wh)
        if r == 4:
            return 'UPDATE unknown table', J(['UPDATE', other_name(rng, t, tabs), 'SET', c.name, '=', lit] + wh)
        k, w = bad_where(rng, t, pool, 'u')
        return 'UPDATE ' + k, J(['UPDATE', t.name, 'SET', c.name, '=', lit, 'WHERE'] + w)
    if kind == 'delete':
        if rng.random() < 0.2:
            return 'DELETE unknown table', J(['DELETE', 'FROM', other_name(rng, t, tabs)])
        k, w = bad_where(rng, t, pool, 'd')
        return 'DELETE ' + k, J(['DELETE', 'FROM', t.name, 'WHERE'] + w)
    if kind == 'select':
        r = rng.randrange(10)
        n = other_name(rng, t, tabs)
        col, oc = rng.choice(t.cols), rng.choice(o.cols)
        if t is o:
            r %= 5
        if r == 5:
            return 'SELECT unknown table in a join', J(['SELECT', '*', 'FROM', t.name] + rng.choice([[',', n], ['JOIN', n, 'ON', col.name, '=', col.name]]))
        if r == 6:
            ent = rng.choice([['SELECT', 'COUNT(', n, ')', 'FROM', t.name], ['SELECT', col.name, ',', 'COUNT(', '*', ')', 'FROM', t.name, 'GROUP', 'BY', col.name, ',', n],
                              ['SELECT', col.name, ',', 'COUNT(', n, ')', 'FROM', t.name, 'GROUP', 'BY', col.name], ['SELECT', 'COUNT(', '*', ')', 'FROM', t.name, 'GROUP', 'BY', n]])
            return 'SELECT unknown column in COUNT or GROUP BY', J(ent)
        if r == 7:
            return 'SELECT column of a table that is not in FROM', J(rng.choice([['SELECT', oc.name, 'FROM', t.name], ['SELECT', o.name + '.' + oc.name, 'FROM', t.name],
                                                                                ['SELECT', col.name, 'FROM', t.name, 'WHERE', o.name + '.' + oc.name, 'IS', 'NULL']]))
        if r == 8:
            k, w = bad_leaf(rng, Tab('x', [x for x in t.cols + o.cols]), pool, 's')
            if len(w) == 3:
                return 'SELECT ON: ' + k, J(['SELECT', '*', 'FROM', t.name, 'JOIN', o.name, 'ON'] + w)
        if r == 9 and len(t.cols) > 1:
            a, b = rng.sample(t.cols, 2)
            return 'SELECT column outside GROUP BY', J(['SELECT', a.name, ',', 'COUNT(', '*', ')', 'FROM', t.name, 'GROUP', 'BY', b.name])
        r %= 5
        if r == 0:
            return 'SELECT unknown table', J(['SELECT', '*', 'FROM', other_name(rng, t, tabs)])
        if r == 1:
            return 'SELECT unknown column', J(['SELECT', t.cols[0].name, ',', other_name(rng, t, tabs), 'FROM', t.name])
        if r == 2:
            return 'SELECT column outside GROUP BY', J(['SELECT', t.cols[0].name, ',', 'COUNT(', '*', ')', 'FROM', t.name])
        if r == 3:
            return 'SELECT unknown qualifier', J(['SELECT', other_name(rng, t, tabs) + '.' + t.cols[0].name, 'FROM', t.name])
        k, w = bad_where(rng, t, pool, 's')
        return 'SELECT ' + k, J(['SELECT', '*', 'FROM', t.name, 'WHERE'] + w)
    if kind == 'create':
        r = rng.randrange(6)
        n = 'N%d' % rng.randrange(1000)
        if r == 0:
            return 'CREATE existing table', J(create_toks(Tab(t.name, o.cols)))
        if r <= 3:
            # a good definition, wrong in any one place
            stem = rng.choice(['a', 'col', 'Ez', 'x1_y', full_name(rng, 'k')[:100]])
            cs = [stem + str(i) for i in range(rng.choice([1, 2, 3, 5, 9, 40]))]
            if rng.random() < 0.5:
                cs[0] = stem
            types = [[rng.choice(['INT', 'DOUBLE', 'TINYINT', 'DATE', 'DATETIME', 'VARCHAR(7)'])] for _ in cs]
            keys = [[rng.choice(['INDEX', 'PRIMARY KEY'])] + rng.sample(cs, min(len(cs), rng.choice([1, 1, 2, 3, 6]))) for _ in range(rng.choice([0, 1, 1, 2]))]
            if r == 1:
                cs.insert(rng.randrange(len(cs) + 1), rng.choice(cs))
                types.append([rng.choice(['INT', 'DATE'])])
                cl = 'CREATE duplicate column'
            elif r == 2:
                types[rng.randrange(len(cs))] = ['VARCHAR(', rng.choice(['0', '-1', '10000', '99999999999']), ')']
                cl = 'CREATE bad length'
            else:
                if not keys:
                    keys = [[rng.choice(['INDEX', 'PRIMARY KEY']), cs[0]]]
                k = rng.choice(keys)
                c = rng.choice(cs)
                wrong = [x for x in (c + 'x', c[:-1], c.swapcase(), 'b', c + '_', t.name) if x and x not in cs]
                k.insert(rng.randrange(1, len(k) + 1), rng.choice(wrong))
                if len(k) > 2 and rng.random() < 0.3:
                    k.pop(rng.choice([i for i in range(1, len(k)) if k[i] in cs]))
                cl = 'CREATE key of unknown column'
            items = [[c] + ty for c, ty in zip(cs, types)]
            for k in keys:
                items.insert(rng.randrange(len(items) + 1) if rng.random() < 0.3 else len(items), [k[0], '('] + [y for x in k[1:] for y in (x, ',')][:-1] + [')'])
            toks = ['CREATE', 'TABLE', n, '(']
            for i, it in enumerate(items):
                toks += ([','] if i else []) + it
            return cl, J(toks + [')'])
        if r == 4:
            return 'CREATE too many columns', J(create_toks(Tab(n, [Col('c%d' % i, INT) for i in range(rng.choice([129, 130, 200, 300]))])))
        return 'CREATE without columns', 'CREATE TABLE %s ();' % n
    # syntax: a valid statement damaged in a way that can't be valid
    base = rng.choice([
        render(insert_toks(rng, t, good(2))), 'DELETE FROM %s;' % t.name,
        'UPDATE %s SET %s = %s;' % (t.name, t.cols[0].name, pool.lit(t.cols[0])[0]),
        'SELECT * FROM %s;' % t.name, render(create_toks(Tab('N7', o.cols)))])
    r = rng.randrange(7)
    if r == 0:
        return 'syntax: closing parenthesis', base[:-1] + ' );'
    if r == 1:
        return 'syntax: leading token', rng.choice(['FROM ', ') ', '= ', 'xyz ', '1 ', 'WHERE ']) + base
    if r == 2:
        return 'syntax: unterminated string', base[:-1] + " 'abc;"
    if r == 3:
        return 'syntax: stray character', base[:-1] + rng.choice([' $;', ' \\;', ' ?;', ' [;', ' {}', ' \x01;', ' @x;'])
    if r == 4:
        return 'syntax: cut short', ' '.join(base[:-1].split(' ')[:2])
    if r == 5:
        return 'syntax: unterminated comment', base[:-1] + ' /* x ;'
    return 'syntax: two statements in a row', base[:-1] + ' ' + base


def unit_reject(exe, seed, idx, nstmt):
    res = Result()
    rng = random.Random(derive(seed, 'P07', idx))
    s = Sess(exe, res, 'P07/%d' % idx)
    s.open()
    pool = Pool(rng)
    t = mktable(rng, tabname(rng, rng.choice(['T', 'users'])), p_notnull=0.35)
    if rng.random() < 0.15:
        c = rng.choice(t.cols)
        c.name = full_name(rng, c.name)
        t = Tab(full_name(rng, t.name) if rng.random() < 0.5 else t.name, t.cols)
    o = mktable(rng, 'other', taken=[c.name for c in t.cols] + [t.name], ncols=3)
    tabs = [t, o]
    setup_table(s, rng, t, pool, rng.choice([0, 1, 5, 30, 150]))
    setup_table(s, rng, o, pool, rng.choice([0, 3]))
    for x in tabs:
        s.dump(x.name)
    for _ in range(nstmt):
        kl, sql = bad_statement(rng, t, o, tabs, pool)
        st = {}

        def cb(ev, kl=kl, st=st):
            res.evals += 1
            st['st'] = ev['st']
            if ev['st'] != ERR:
                return 'invalid statement accepted (%s): status %s' % (kl, ev['st'])
            if not errtext(ev):
                return 'rejected without an error message (%s): ' % kl
            res.tally.add('rejected: ' + kl.split(' ')[0])
            res.sig(kl)
        s.q(sql, cb, target=True)
        for x in (tabs if rng.random() < 0.3 else [t]):
            s.dump(x.name, cb=lambda a, b, kl=kl: None if (a['rows'], a['cols']) == (b['rows'], b['cols'])
                   else 'rejected statement changed a table (%s): %s' % (kl, sqlm.diff(bag(sqlm.rows_of(a)), bag(sqlm.rows_of(b)))))
        if kl.startswith('CREATE') or 'syntax' in kl:
            m = re.search(r'TABLE (N\d+)', sql)
            if m and kl != 'CREATE existing table':
                s.raw('T 0 ' + m.group(1), '-- dump %s' % m.group(1),
                      lambda ev, kl=kl: None if 'missing' in ev else 'rejected CREATE left a table behind (%s): ' % kl)
        if rng.random() < 0.15:
            # the engine still works
            k = rng.choice([1, 3])
            rows = [rand_row(rng, t, pool) for _ in range(k)]
            s.q(render(insert_toks(rng, t, [[x[0] for x in r] for r in rows])),
                lambda ev: None if ev['st'] == OKX else 'valid statement rejected after an invalid one: ' + errtext(ev), target=True)
            s.dump(t.name, cb=lambda a, b, rows=rows: (lambda d: d and 'valid statement after an invalid one: ' + d)(
                diff(bag(sqlm.rows_of(a)) + bag([tuple(x[1] for x in r) for r in rows]), bag(sqlm.rows_of(b)))))
    s.close()
    s.run()
    if idx < 2:
        res.samples.append({'statement': s.text[-3][:300]})
    return res


# =====================================================================================================================
# P08 CREATE TABLE and the catalog
NULLABLE, UNIQUE, AUTOINC, PK, INDEXED = 1, 2, 4, 8, 16


def unit_create(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P08', idx, scale))
    s = Sess(exe, res, 'P08/%d' % idx)
    s.open()
    pool = Pool(rng)
    model = {}             # name -> [(col, type, n, flags)]
    tnames = ['T', 'a', 'users', 'Users', 'x_1', 'T_1', 'L' * 60, 'L' * 100, 'q' * 127, 'k0', 'k1', 'k2', 'abc', 'acb', 'bac'] + ['tab%d' % i for i in range(nstmt)]
    tnames += [rand_name(rng) for _ in range(4)]
    rowsof = {}

    for _ in range(nstmt):
        n = rng.choice(tnames)
        k = rng.choice([1, 2, 3]) if scale else rng.choice([1, 1, 2, 3, 5, 9, 20, 128]) if rng.random() < 0.9 else rng.randrange(1, 129)
        if scale and len(model) < nstmt * 0.8 and n in model:
            n = rng.choice([x for x in tnames if x not in model])
        nm = names(rng, k, taken=[n])
        defs, cols = [], []
        noise = rng.random() < 0.3
        for c in nm:
            ty = rng.choice(TYPES)
            ln = rng.choice([1, 2, 10, 255, 256, 4000, 9999, rng.randrange(1, 10000)]) if ty == VC else 0
            fl = NULLABLE
            kw = 'INTEGER' if ty == INT and rng.random() < 0.5 else ty
            tok = [c] + ([VC + '(', str(ln), ')'] if ty == VC else [kw])
            for _a in range(rng.choice([0, 0, 1, 1, 2, 3])):
                a = rng.choice(['nn', 'null', 'auto', 'uniq', 'pk'])
                if a == 'nn':
                    tok += ['NOT', 'NULL']
                    fl &= ~NULLABLE
                elif a == 'null':
                    # NULL is the default and no more than that, mixing it with NOT NULL is a contradiction
                    if fl & NULLABLE and 'NOT' not in tok and 'PRIMARY' not in tok:
                        tok += ['NULL']
                elif a == 'auto':
                    tok += ['AUTO_INCREMENT']
                    fl |= AUTOINC
                elif a == 'uniq':
                    tok += ['UNIQUE']
                    fl |= UNIQUE
                elif 'NULL' not in tok or 'NOT' in tok:
                    tok += ['PRIMARY', 'KEY']
                    fl = (fl | PK | UNIQUE) & ~NULLABLE
            if 'NULL' in tok and 'NOT' not in tok and 'PRIMARY' in tok:
                tok = [x for x in tok if x != 'NULL']
            defs.append(tok)
            cols.append([c, ty, ln, fl])
        for _x in range(rng.choice([0, 0, 1, 2])):
            ks = rng.sample(range(k), rng.randrange(1, min(k, 4) + 1))
            pk = rng.random() < 0.5
            tok = (['PRIMARY', 'KEY'] if pk else ['INDEX']) + ['(']
            for j, i in enumerate(ks):
                tok += ([','] if j else []) + [nm[i]]
                if pk:
                    if 'NULL' in defs_of(defs, nm[i]) and 'NOT' not in defs_of(defs, nm[i]):
                        defs_of(defs, nm[i]).remove('NULL')
                    cols[i][3] = (cols[i][3] | PK | UNIQUE) & ~NULLABLE
                else:
                    cols[i][3] |= INDEXED
            defs.insert(rng.randrange(len(defs) + 1), tok + [')'])
        ine = rng.random() < 0.3
        toks = ['CREATE', 'TABLE'] + (['IF', 'NOT EXISTS'] if ine else []) + [n, '(']
        for i, d in enumerate(defs):
            toks += ([','] if i else []) + d
        toks.append(')')
        exists = n in model
        ok = ine or not exists
        sql = noisy(rng, toks) if noise else render(toks)

        def cb(ev, ok=ok, ine=ine, exists=exists):
            if ok and ev['st'] != OKX:
                return 'valid CREATE TABLE rejected: ' + errtext(ev)
            if not ok and ev['st'] != ERR:
                return 'CREATE TABLE of an existing table accepted: '
        s.q(sql, cb, target=True)
        if ok and not exists:
            model[n] = [tuple(c) for c in cols]
        if len(n) < 128:
            s.raw('T 0 ' + n, '-- dump ' + n, verify_with(n, rowsof, res, model))
        res.sig(tuple(sorted({(c[1], c[3]) for c in cols}))[:6], min(k, 30), ine, exists)
        if rng.random() < 0.4 and model:
            # tables don't mix: put a row somewhere
            m = rng.choice(sorted(model))
            tt = Tab(m, [Col(c[0], c[1], c[2], not c[3] & NULLABLE) for c in model[m]])
            if len(tt.cols) < 40 and all(c.n != 1 for c in tt.cols):
                row = rand_row(rng, tt, pool)
                s.q(render(insert_toks(rng, tt, [[x[0] for x in row]])),
                    lambda ev: None if ev['st'] == OKX else 'insert into a created table rejected: ' + errtext(ev), target=True)
                rowsof.setdefault(m, []).append(tuple(x[1] for x in row))
                rowsof = {a: list(b) for a, b in rowsof.items()}
        if rng.random() < 0.3:
            m = rng.choice(tnames)
            s.raw('T 0 ' + m, '-- dump ' + m, verify_with(m, rowsof, res, model))
    for m in sorted(model):
        s.raw('T 0 ' + m, '-- dump ' + m, verify_with(m, rowsof, res, model))
    s.close(target=True)
    s.run()
    if idx < 2:
        res.samples.append({'statement': [x for x in s.text if x.upper().lstrip().startswith('CREATE')][0][:300]} if any(x.upper().lstrip().startswith('CREATE') for x in s.text) else {})
    return res


def verify_with(m, rowsof, res, model):
    want = list(model[m]) if m in model else None
    rows = list(rowsof.get(m, []))

    def f(ev):
        res.evals += 1
        if want is None:
            return None if 'missing' in ev else 'a table that was never created exists: ' + m
        if 'missing' in ev:
            return 'created table is missing: ' + m
        # the length is part of the definition for strings only
        got = [(bytes.fromhex(c[0]).decode('latin1'), c[1], c[2] if c[1] == TCODE[VC] else 0, c[3]) for c in ev['cols']]
        w = [(c[0], TCODE[c[1]], c[2], c[3]) for c in want]
        if got != w:
            bad = [(a, b) for a, b in zip(got, w) if a != b][:3]
            return 'column definition changed: %s' % bad
        d = diff(bag(rows), bag(sqlm.rows_of(ev)))
        return d and 'rows of another table: ' + d
    return f


def defs_of(defs, name):
    for d in defs:
        if d[0] == name and d[0] not in ('INDEX',):
            return d
    return []


# =====================================================================================================================
# P09 results are complete, exactly-once and isolated snapshots
def unit_cursor(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P09', idx, scale))
    s = Sess(exe, res, 'P09/%d' % idx)
    s.open()
    pool = Pool(rng)
    t = mktable(rng, 'T', ncols=rng.choice([1, 2, 3, 5, 9] * 3 + [40, 110]), p_notnull=0.1)
    # an id makes every row distinguishable
    t = Tab('T', [Col('rid', INT, 0, True)] + [c for c in t.cols if c.name != 'rid'])
    u = Tab('U', [Col('uid', INT), Col('uname', VC, 40)])
    rid = [0]

    def ins(k):
        rows = []
        for _ in range(k):
            rid[0] += 1
            r = rand_row(rng, t, pool)
            r[0] = (str(rid[0]), rid[0])
            rows.append([x[0] for x in r])
        if rows:
            s.q(render(insert_toks(rng, t, rows)))
    s.q(render(create_toks(t)))
    s.q(render(create_toks(u)))
    n = rng.choice([3000, 9000, 17000]) if scale else rng.choice([0, 1, 3, 20, 80, 250, 400])
    step = 1000 if scale else 60
    while n > 0:
        ins(min(n, step))
        n -= step
    setup_more(s, rng, u, pool, 4)
    s.dump('T')
    s.dump('U')
    held = {}
    for _ in range(nstmt):
        op = rng.choice(['hold', 'hold', 'resume', 'resume', 'resume', 'free', 'mut', 'mut', 'query'])
        if op == 'hold':
            h = rng.randrange(6)
            if h in held:
                continue
            kind = rng.choice(['star', 'cols', 'where', 'join', 'group', 'count'])
            cond = rand_cond(rng, t.cols, pool, 1)
            steps = rng.choice([0, 1, 2, 10, 60, 10 ** 6] + ([3000, 8192] if scale else []))
            if kind == 'star':
                sql = 'SELECT * FROM T;'
            elif kind == 'cols':
                sql = 'SELECT rid, %s FROM T;' % rng.choice(t.cols).name
            elif kind == 'where':
                sql = 'SELECT rid FROM T WHERE ' + ' '.join(cond_toks(rng, cond, lambda c: c.name)) + ';'
            elif kind == 'join':
                sql = 'SELECT rid, uid, uname FROM T, U;'
            elif kind == 'group':
                sql = 'SELECT %s, COUNT(*) FROM T GROUP BY %s;' % ((t.cols[-1].name,) * 2)
            else:
                sql = 'SELECT COUNT(*) FROM T;'
            st = {'got': [], 'end': False, 'ok': False, 'kind': kind}
            held[h] = st

            def cb(ev, st=st, kind=kind, cond=cond):
                if ev['st'] != OKR:
                    return 'valid SELECT rejected: ' + errtext(ev)
                st['ok'] = True
                st['cols'] = ev['cols']
                rows, urows = s.rows('T'), s.rows('U')
                nm = [x.split('.')[-1] for x in colnames(ev)]
                if kind in ('star', 'cols'):
                    exp = [tuple(r[t.idx(c)] for c in nm) for r in rows]
                elif kind == 'where':
                    exp = [(r[0],) for r in rows if ev_(cond, t, r)]
                elif kind == 'join':
                    exp = [(r[0], q[0], q[1]) for r in rows for q in urows]
                elif kind == 'group':
                    g = Counter(canon(r[-1]) for r in rows)
                    val = {canon(r[-1]): r[-1] for r in rows}
                    exp = [(val[k], n) for k, n in g.items()]
                else:
                    exp = [(len(rows),)]
                st['exp'] = bag(exp)
                return account(ev, st)
            s.raw('H 0 %d %d %s' % (h, steps, sql.encode('latin1').hex()), '-- hold %d, %d steps: %s' % (h, steps, sql), cb, True)
        elif op == 'resume' and held:
            h = rng.choice(sorted(held))
            k = rng.choice([1, 1, 5, 40, 10 ** 6])
            s.raw('R %d %d' % (h, k), '-- resume %d, %d steps' % (h, k), lambda ev, st=held[h]: account(ev, st), True)
        elif op == 'free' and held:
            h = rng.choice(sorted(held))
            st = held.pop(h)
            if rng.random() < 0.7:
                s.raw('R %d %d' % (h, 10 ** 7), '-- drain %d' % h, lambda ev, st=st: account(ev, st), True)
            s.raw('F %d' % h, '-- free %d' % h, None, True)
        elif op == 'query':
            s.q(rng.choice(['SELECT * FROM T;', 'SELECT COUNT(*) FROM T;', 'SELECT nope FROM T;', 'DELETE FROM nope;']),
                lambda ev: None if not ev.get('again') else 'cursor yields rows after its end: ', target=True)
        else:
            r = rng.randrange(5)
            if r == 0:
                ins(rng.choice([1, 10, 60]))
            elif r == 1:
                c = rng.choice(t.cols)
                s.q('DELETE FROM T WHERE %s;' % ' '.join(cond_toks(rng, rand_cond(rng, t.cols, pool, 0), lambda c: c.name)))
            elif r == 2:
                c = rng.choice(t.cols[1:])
                s.q('UPDATE T SET %s = %s;' % (c.name, pool.lit(c)[0]))
            elif r == 3 and rng.random() < 0.4:
                s.q('DELETE FROM T;')
            else:
                s.q('CREATE TABLE X%d (a INT);' % rng.randrange(10 ** 6))
            s.dump('T')

    def account(ev, st):
        if 'cur' not in ev:
            return None
        res.evals += 1
        rows = sqlm.rows_of({'cols': st['cols'], 'cur': [x for x in ev['cur'] if x != 'ACCESSOR-MISMATCH']}, 'cur')
        if len(rows) < len(ev['cur']):
            return 'query_column_int64 reads other values than the row holds: '
        st['got'] += rows
        res.tally.add('cursor_rows', len(rows))
        g = bag(st['got'])
        more = g - st['exp']
        if more:
            return 'cursor returned rows that were not in the result (or returned them twice): {%s}' % sqlm.show(more)
        if st['end'] and rows:
            return 'cursor yields rows after its end: '
        if ev.get('end'):
            st['end'] = True
            if g != st['exp']:
                return 'cursor ended early: missing {%s}' % sqlm.show(st['exp'] - g)
            res.tally.add('results_exhausted')
            res.sig(st['kind'], min(len(st['got']), 400) // 8, len(held))
    for h in list(held):
        st = held.pop(h)
        s.raw('R %d %d' % (h, 10 ** 7), '-- drain %d' % h, lambda ev, st=st: account(ev, st), True)
        if rng.random() < 0.5:
            s.raw('F %d' % h, '-- free %d' % h, None, True)
        else:
            held[h] = st
    # results outlive even the database
    s.close()
    for h in sorted(held):
        st = held[h]
        s.raw('R %d 3' % h, '-- resume %d after close' % h, lambda ev, st=st: account(ev, st), True)
        s.raw('F %d' % h, '-- free %d' % h, None, True)
    s.run()
    if idx < 2:
        res.samples.append({'history': [x[:120] for x in s.text[-12:]]})
    return res


# =====================================================================================================================
# P11 memory is given back
def alias_statement(rng, t, tabs, cw):
    """a query with aliases of columns, counts and tables, right or wrong in any one place; whatever it does it keeps nothing"""
    ta = rng.choice(['', '', ' AS q', ' q', ' AS ' + rng.choice(tabs).name])
    q = ta.split(' ')[-1] + '.' if ta and rng.random() < 0.6 else ''
    cs = [rng.choice(t.cols).name for _ in range(rng.randrange(1, 4))]
    al = lambda: rng.choice(['', '', ' AS x%d' % rng.randrange(3), ' y%d' % rng.randrange(3), ' AS ' + rng.choice(t.cols).name])
    items = [q + c + al() for c in cs]
    r = rng.randrange(9)
    if r == 0:
        items.append(rng.choice(['COUNT(*)', 'COUNT(%s%s)' % (q, cs[0])]) + al())
    elif r == 1:
        items[rng.randrange(len(items))] = 'nope' + al()
    tail = rng.choice(['', ' WHERE nope = 1', ' WHERE ' + cw(1), ' GROUP BY ' + ', '.join(q + c for c in cs), ' GROUP BY nope', ' GROUP BY x0', ' WHERE x0 = 1',
                       ' WHERE %s%s = nope.x' % (q, cs[0]), " WHERE %s%s = '1' AND %s%s = 1" % (q, cs[0], q, cs[0]), ' HAVING nope = 1', ' ORDER BY nope', ' ORDER BY x0', ' LIMIT 1'])
    fr = rng.choice([t.name + ta] * 4 + [t.name + ta + ', Nope', 'Nope' + ta, t.name + ta + ', ' + rng.choice(tabs).name + ' AS z', t.name + ta + ' JOIN Nope ON ' + cs[0] + ' = nope'])
    return 'SELECT %s FROM %s%s;' % (', '.join(items), fr, tail)


def unit_leak(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P11', idx, scale))
    s = Sess(exe, res, 'P11/%d' % idx)
    mem = []
    # first use of the library (stdio buffers, locale, tables of the scanner)
    s.open(1)
    for q in ('CREATE TABLE W (a INT, b VARCHAR(10), c DATE, d DATETIME, e DOUBLE);', "INSERT INTO W VALUES (1,'x','2020-01-01','2020-01-01 10:00:00', 1.5);",
              'SELECT * FROM W WHERE a > 0;', 'SELECT nope FROM W;', 'garbage;', "DELETE FROM W WHERE b = 'x';"):
        s.q(q, db=1)
    s.close(1)
    s.raw('M', '-- heap', lambda ev: mem.append(ev['mem']))
    for rnd in range(2):
        s.open()
        pool = Pool(rng)
        tabs = []
        taken = []
        nt = rng.choice([1, 2, 3])
        for i in range(nt):
            t = mktable(rng, tabname(rng, 'T%d' % i), taken=taken, p_notnull=0.3)
            taken += [c.name for c in t.cols]
            tabs.append(t)
            setup_table(s, rng, t, pool, rng.choice([2000, 5, 30]) if scale and nt == 1 else rng.choice([0, 3, 30, 120] if nt < 3 else [0, 3, 8]), chunk=1000 if scale else None)
        for _ in range(nstmt):
            t = rng.choice(tabs)
            kind = rng.choice(['sel', 'sel', 'part', 'join', 'group', 'bad', 'bad', 'alias', 'ins', 'upd', 'del', 'soup'] if nt < 3 else ['sel', 'part', 'join', 'join', 'group', 'bad', 'alias', 'upd', 'del', 'soup'])
            cw = lambda d=1: ' '.join(cond_toks(rng, big_cond(rng, t.cols, pool, rng.choice([40, 100, 200])) if scale else rand_cond(rng, t.cols, pool, d), lambda c: c.name))
            zero = True
            cmd = 'Q'
            if kind in ('sel', 'part'):
                sql = 'SELECT %s FROM %s WHERE %s;' % (rng.choice(['*', ', '.join(c.name for c in t.cols)]), t.name, cw(2))
                cmd = 'S' if kind == 'part' else 'Q'
            elif kind == 'join':
                sql = 'SELECT * FROM %s;' % ', '.join(x.name for x in tabs) if len(tabs) == 1 or sum(len(x.cols) for x in tabs) < 10 else 'SELECT * FROM %s;' % t.name
                if len(tabs) > 1 and rng.random() < 0.6:
                    a, b = tabs[0], tabs[1]
                    ca, cb_ = rng.choice(a.cols), rng.choice(b.cols)
                    sql = 'SELECT * FROM %s JOIN %s ON %s = %s;' % (a.name, b.name, ca.name, cb_.name)
            elif kind == 'group':
                c = rng.choice(t.cols)
                sql = rng.choice(['SELECT %s, COUNT(*) FROM %s GROUP BY %s;' % (c.name, t.name, c.name), 'SELECT COUNT(*), COUNT(%s) FROM %s;' % (c.name, t.name)])
            elif kind == 'bad':
                kl, sql = bad_statement(rng, t, tabs[0], tabs, pool)
            elif kind == 'alias':
                sql = alias_statement(rng, t, tabs, cw)
            elif kind == 'soup':
                sql = ' '.join(rng.choice(SOUP) for _ in range(rng.randrange(1, 14))) + ';'
            else:
                zero = False
                if kind == 'ins':
                    sql = render(insert_toks(rng, t, [[x[0] for x in rand_row(rng, t, pool)] for _ in range(rng.choice([1, 5, 40]))]))
                elif kind == 'upd':
                    c = rng.choice(t.cols)
                    sql = 'UPDATE %s SET %s = %s WHERE %s;' % (t.name, c.name, pool.lit(c)[0], cw())
                else:
                    sql = 'DELETE FROM %s WHERE %s;' % (t.name, cw())

            def cb(ev, zero=zero, kind=kind, sql=sql):
                res.evals += 1
                if (zero and kind != 'soup') or ev['st'] != OKX:
                    if ev.get('dmem', 0) != 0:
                        return 'memory not given back after %s: %d bytes' % ('a failed statement' if ev['st'] == ERR else 'a query', ev['dmem'])
                    res.sig(kind, ev['st'], len(ev.get('cols', ())) , min(len(ev.get('cur', ())), 20), re.sub(r"'[^']*'|[0-9.]+|\w*\d\w*", '#', sql)[:50] if kind == 'bad' else 0)
            s.q(sql, cb, target=True, cmd=cmd)
        s.close(target=True)

        def base(ev):
            res.evals += 1
            if ev['mem'] != mem[0]:
                return 'memory not given back when the database was closed: %d bytes' % (ev['mem'] - mem[0])
        s.raw('M', '-- heap', base)
    s.run()
    res.tally.add('sessions')
    if idx < 2:
        res.samples.append({'statement': s.text[-3][:300]})
    return res


SOUP = ['SELECT', 'INSERT', 'INTO', 'UPDATE', 'DELETE', 'CREATE', 'TABLE', 'FROM', 'WHERE', 'SET', 'VALUES', 'AND', 'OR', 'XOR', 'NOT', 'IN', 'IS',
        'NULL', 'LIKE', 'BETWEEN', 'GROUP', 'BY', 'HAVING', 'ORDER', 'LIMIT', 'JOIN', 'INNER', 'LEFT', 'RIGHT', 'OUTER', 'ON', 'AS', 'COUNT(', 'COUNT',
        'CASE', 'WHEN', 'THEN', 'ELSE', 'END', 'PRIMARY', 'KEY', 'UNIQUE', 'INDEX', 'AUTO_INCREMENT', 'INT', 'INTEGER', 'DOUBLE', 'TINYINT', 'VARCHAR',
        'VARCHAR(', 'DATE', 'DATETIME', 'DISTINCT', 'IF', 'NOT EXISTS', 'EXISTS', 'ASC', 'DESC', 'CURRENT_DATE', 'CURRENT_TIMESTAMP', 'TRUE', 'FALSE', 'UNKNOWN',
        '(', ')', '(', ')', ',', ',', '.', '=', '<>', '<', '>', '<=', '>=', '<=>', '!=', '+', '-', '*', '/', '%', 'MOD', '!', '&&', '||', '&', '|', '^', '~', '<<', ':=',
        '1', '0', '-1', '42', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '1.5', '.5', '1e5', '1E400', '0x1F', "x'1f'", "b'01'", '0b01',
        "''", "'a'", "'it''s'", '"q"', "'%s%n'", "'2020-01-01'", "'2020-01-01 10:00:00'", '@v', '@@g', '`T0`', 'T0', 'T1', 'W', 'a', 'b', 'c', 'T0.a', 'x', 'nope', ';', '--x\n', '/*c*/', '#z\n', '\\', '$', '?']


# =====================================================================================================================
# P10 no text can take the process down
GR = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'grammar.json')))
MINLEN = {}


def _minlens():
    INF = 10 ** 6
    for k in GR:
        MINLEN[k] = INF
    ch = True
    while ch:
        ch = False
        for k, ps in GR.items():
            m = min(sum(MINLEN.get(x, 1) for x in p) for p in ps)
            if m < MINLEN[k]:
                MINLEN[k] = m
                ch = True


_minlens()


def hostile_term(rng, x, nm):
    if x[0] == "'":
        return x[1]
    if x == 'NAME':
        r = rng.random()
        if r < 0.85:
            return rng.choice(nm)
        return rng.choice(['nope', 'a', '`x y`', '`' + 'n' * 200 + '`', 'N' * rng.choice([126, 127, 128, 129, 255, 256, 300, 2000]), '`%s%n`', '`a-b`', "`'`", 'count', '`SELECT`', '`1`', 'x.y'])
    if x == 'STRING':
        return rng.choice(["''", "'a'", "'it''s'", '"dq"', "'%s%n%d'", "'2020-01-02'", "'2020-01-02 03:04:05'", "'" + 's' * rng.choice([254, 255, 256, 1023, 1024, 9000]) + "'", "x'1f'", '0x1F', "b'101'", "'\\n'", "'\\\\'", "'\\''", "'9999-99-99'"])
    if x == 'INTNUM':
        return rng.choice(['0', '1', '2', '-1', '7', '42', '100', '9999', '2147483647', '2147483648', '4294967296', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '1' * 400, '00', '-0', '128', '129'])
    if x == 'APPROXNUM':
        return rng.choice(['0.0', '1.5', '-1.5', '.5', '5.', '1e308', '1e-400', '1E999', '0.1e1', '9' * 320 + '.0', '-.0', '3.14'])
    if x == 'BOOL':
        return rng.choice(['TRUE', 'FALSE', 'UNKNOWN', 'true'])
    if x == 'COMPARISON':
        return rng.choice(['=', '=', '<>', '!=', '<', '>', '<=', '>='])
    return {'NULLX': 'NULL', 'ANDOP': 'AND', 'FCOUNT': 'COUNT', 'EXISTS': 'NOT EXISTS'}.get(x, x)


def derive_sentence(rng, start, nm, budget):
    out = []
    stack = [start]
    n = 0
    while stack:
        x = stack.pop()
        if x not in GR:
            t = hostile_term(rng, x, nm)
            if out and out[-1].endswith('COUNT') and t == '(':
                out[-1] += '('
            else:
                out.append(t)
            continue
        ps = GR[x]
        n += 1
        if n > budget:
            m = min(sum(MINLEN.get(y, 1) for y in p) for p in ps)
            ps = [p for p in ps if sum(MINLEN.get(y, 1) for y in p) == m]
        p = rng.choice(ps)
        stack.extend(reversed(p))
    return out


def big_statement(rng, t, pool):
    c = rng.choice(t.cols)
    lit = pool.lit(c)[0]
    n = rng.choice([50, 200, 600, 1200])
    r = rng.randrange(16)
    if r == 0:
        return 'SELECT * FROM %s WHERE %s;' % (t.name, ' AND '.join(['%s = %s' % (c.name, lit)] * n))
    if r == 1:
        return 'DELETE FROM %s WHERE %s;' % (t.name, rng.choice([' OR ', ' XOR ']).join(['%s = %s' % (c.name, lit)] * n))
    if r == 2:
        return 'SELECT * FROM %s WHERE %s%s = %s%s;' % (t.name, '(' * n, c.name, lit, ')' * n)
    if r == 3:
        return 'SELECT * FROM %s WHERE %s IN (%s);' % (t.name, c.name, ','.join([lit] * n * 3))
    if r == 4:
        return 'INSERT INTO %s VALUES (%s);' % (t.name, '+'.join(['1'] * n))
    if r == 5:
        return 'INSERT INTO %s VALUES (%s1%s);' % (t.name, '(' * n, ')' * n)
    if r == 6:
        return 'INSERT INTO %s VALUES (%s);' % (t.name, ','.join(['1'] * n))
    if r == 7:
        return 'CREATE TABLE z%d (%s);' % (rng.randrange(99), ','.join('c%d INT' % i for i in range(n)))
    if r == 8:
        return 'SELECT %s FROM %s;' % (','.join([rng.choice(t.cols).name] * n), t.name)
    if r == 9:
        return 'SELECT * FROM %s WHERE %s = %s;' % (t.name, c.name, "'" + 'k' * n * 80 + "'")
    if r == 10:
        return 'UPDATE %s SET %s;' % (t.name, ','.join(['%s = %s' % (c.name, lit)] * n))
    if r == 11:
        return 'SELECT * FROM %s;' % ','.join([t.name] * min(n, 200))
    if r == 12:
        return 'INSERT INTO %s (%s) VALUES (%s);' % (t.name, ','.join([c.name] * n), ','.join([lit] * n))
    if r == 13:
        return 'INSERT INTO %s VALUES %s;' % (t.name, ','.join(['(%s)' % ','.join([pool.lit(x)[0] for x in t.cols])] * n))
    if r == 14:
        return 'INSERT INTO %s VALUES (%s 1);' % (t.name, '-' * 1 + ' - ' * n)
    return 'SELECT COUNT(*), %s FROM %s GROUP BY %s;' % (c.name, t.name, ','.join([c.name] * n))


def hole(rng, start, t, pool):
    """tokens of any expression the grammar allows, over names that exist and (mostly) values of one type"""
    ty = rng.choice(t.cols).type
    same = [c for c in t.cols if c.type == ty]
    cols = same if rng.random() < 0.7 else t.cols
    lits = [pool.lit(rng.choice(cols))[0] for _ in range(3)] + (['NULL'] if rng.random() < 0.3 else [])
    toks = derive_sentence(rng, start, ['@n'], rng.choice([2, 3, 4, 6, 9]))
    out = []
    for x in toks:
        if x == '@n':
            out.append(rng.choice(cols).name)
        elif x[0].isdigit() or x[0] in '\'"`' or x in ('TRUE', 'FALSE', 'UNKNOWN', 'true', 'NULL') or (x[0] in '-.' and len(x) > 1) or x == 'nope':
            out.append(rng.choice(lits) if rng.random() < 0.9 else x)
        else:
            out.append(x)
    # a qualified name
    for i in range(1, len(out) - 1):
        if out[i] == '.':
            out[i - 1] = t.name
    return out


def odd_statement(rng, t, u, pool):
    """a statement that is plain but for the expression in one place"""
    c = rng.choice(t.cols)
    lit = pool.lit(c)[0]
    r = rng.randrange(13)
    good = cond_toks(rng, rand_cond(rng, t.cols, pool, 1), lambda c: c.name)

    def cond(start):
        h = hole(rng, start, t, pool)
        return rng.choice([h, h, ['('] + h + [')', rng.choice(['AND', 'OR', 'XOR']), '('] + good + [')'], ['('] + good + [')', rng.choice(['AND', 'OR', 'XOR']), '('] + h + [')']])
    if r <= 1:
        return ['SELECT', '*', 'FROM', t.name, 'WHERE'] + cond('expr')
    if r == 2:
        return ['SELECT'] + hole(rng, 'expr', t, pool) + (['AS', 'al'] if rng.random() < 0.3 else []) + rng.choice([[], [',', c.name]]) + ['FROM', t.name]
    if r == 3:
        return ['SELECT', c.name, ',', 'COUNT(', '*', ')', 'FROM', t.name, 'GROUP', 'BY'] + hole(rng, 'expr', t, pool)
    if r == 4:
        return ['SELECT', '*', 'FROM', t.name, 'JOIN', u.name, 'ON'] + hole(rng, 'expr', rng.choice([t, u]), pool)
    if r == 5:
        return ['SELECT', c.name, 'FROM', t.name, rng.choice(['HAVING', 'ORDER BY', 'LIMIT'])] + hole(rng, 'expr', t, pool)
    if r == 6:
        return ['SELECT', 'COUNT('] + hole(rng, 'expr', t, pool) + [')', 'FROM', t.name] + rng.choice([[], ['GROUP', 'BY', c.name]])
    if r <= 8:
        return ['DELETE', 'FROM', t.name, 'WHERE'] + cond('delete_expr')
    if r <= 10:
        return ['UPDATE', t.name, 'SET', c.name, '=', lit, 'WHERE'] + cond('update_expr')
    if r == 11:
        return ['UPDATE', t.name, 'SET', c.name, '='] + hole(rng, 'update_expr', t, pool) + rng.choice([[], ['WHERE'] + good])
    rows = [[x[0] for x in rand_row(rng, t, pool)] for _ in range(rng.choice([1, 2, 5]))]
    i = rng.randrange(len(t.cols))
    one = Tab(t.name, [t.cols[i]])
    rows[rng.randrange(len(rows))][i] = hole(rng, 'insert_expr', one, pool)
    return insert_toks(rng, t, rows)


def long_statement(rng, t, u, pool):
    """a plain statement with one very long literal or name in it"""
    n = rng.choice([127, 128, 255, 256, 257, 300, 512, 900, 1000, 1010, 1023, 1024, 1025, 1100, 2000, 3000, 5000])
    lit = rng.choice(["'" + 's' * n + "'", "'" + '%s' * (n // 2) + "'", '1' * n, '1' * n + '.5', '.' + '3' * n, '-' + '9' * n, '"' + 'd' * n + '"'])
    name = rng.choice(['N' * n, '`' + 'q' * n + '`', '`' + '%n' * (n // 2) + '`'])
    c = rng.choice(t.cols)
    r = rng.randrange(12)
    if r <= 2:
        row = [x[0] for x in rand_row(rng, t, pool)]
        row[t.cols.index(c)] = lit
        return render(insert_toks(rng, t, [row]))
    if r == 3:
        return 'UPDATE %s SET %s = %s;' % (t.name, c.name, lit)
    if r == 4:
        return 'UPDATE %s SET %s = %s WHERE %s %s %s;' % (t.name, c.name, pool.lit(c)[0], c.name, rng.choice(['=', '<>', '<']), lit)
    if r == 5:
        return 'DELETE FROM %s WHERE %s %s %s;' % (t.name, c.name, rng.choice(['=', '<>', '>']), lit)
    if r == 6:
        return 'DELETE FROM %s WHERE %s IN (%s, %s);' % (t.name, c.name, pool.lit(c)[0], lit)
    if r == 7:
        return 'SELECT * FROM %s WHERE %s %s %s;' % (t.name, c.name, rng.choice(['=', '<>', '>=']), lit)
    if r == 8:
        return 'SELECT %s FROM %s WHERE %s NOT IN (%s);' % (c.name, t.name, c.name, lit)
    if r == 9:
        return 'SELECT * FROM %s JOIN %s ON %s = %s;' % (t.name, u.name, u.cols[0].name, lit)
    if r == 10:
        return rng.choice(['SELECT %s FROM @t;', 'SELECT * FROM %s;', 'SELECT * FROM @t AS %s;', 'SELECT @c AS %s FROM @t;', 'SELECT @c FROM @t WHERE %s = 1;', 'SELECT %s.@c FROM @t;',
                           'SELECT @c FROM @t GROUP BY %s;', 'DELETE FROM %s;', 'DELETE FROM @t WHERE %s = 1;', 'UPDATE @t SET %s = 1;', 'UPDATE %s SET @c = 1;', 'INSERT INTO %s VALUES (1);',
                           'INSERT INTO @t (%s) VALUES (1);', 'CREATE TABLE %s (a INT);', 'CREATE TABLE zz (%s INT);', 'CREATE TABLE zz (a INT, %s INT, %s INT);']
                          ).replace('@t', t.name).replace('@c', c.name).replace('%s', name)
    return 'CREATE TABLE zz%d (a VARCHAR(%s));' % (rng.randrange(9), '1' * n)


def hostile(rng, t, u, pool, nm):
    r = rng.random()
    if r > 0.9:
        return 'long literal', long_statement(rng, t, u, pool)
    r /= 0.9
    if r < 0.2:
        return 'odd expression', ' '.join(odd_statement(rng, t, u, pool)) + ';'
    r = (r - 0.2) / 0.8
    if r < 0.4:
        toks = derive_sentence(rng, rng.choice(['stmt', 'stmt', 'select_stmt', 'select_stmt', 'delete_stmt', 'update_stmt', 'insert_stmt', 'create_table_stmt']), nm, rng.choice([8, 20, 40, 90]))
        return 'grammar', ' '.join(toks) + ';'
    if r < 0.5:
        return 'soup', ' '.join(rng.choice(SOUP + nm) for _ in range(rng.randrange(0, 25))) + rng.choice([';', '', ';;'])
    if r < 0.55:
        return 'big', big_statement(rng, t, pool)
    cond = cond_toks(rng, rand_cond(rng, t.cols, pool, 2), lambda c: rng.choice([c.name, t.name + '.' + c.name]))
    c = rng.choice(t.cols)
    base = rng.choice([
        ['SELECT', '*', 'FROM', t.name, 'WHERE'] + cond,
        ['SELECT', c.name, ',', 'COUNT(', '*', ')', 'FROM', t.name, 'GROUP', 'BY', c.name],
        ['SELECT', '*', 'FROM', t.name, 'JOIN', u.name, 'ON', t.name + '.' + c.name, '=', u.cols[0].name],
        ['DELETE', 'FROM', t.name, 'WHERE'] + cond,
        ['UPDATE', t.name, 'SET', c.name, '=', pool.lit(c)[0], 'WHERE'] + cond,
        insert_toks(rng, t, [[x[0] for x in rand_row(rng, t, pool)] for _ in range(2)]),
        create_toks(mktable(rng, 'C%d' % rng.randrange(50), ncols=3))])
    if r < 0.85:
        base = list(base)
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(len(base)) if base else 0
            k = rng.randrange(5)
            if k == 0 and base:
                base.pop(i)
            elif k == 1 and base:
                base.insert(i, base[rng.randrange(len(base))])
            elif k == 2 and base:
                base[i] = rng.choice(SOUP + nm)
            elif k == 3 and base:
                j = rng.randrange(len(base))
                base[i], base[j] = base[j], base[i]
            else:
                base.insert(i, rng.choice(SOUP + nm))
        return 'tokens', ' '.join(base) + rng.choice([';', ';', ''])
    b = bytearray((' '.join(base) + ';').encode('latin1'))
    for _ in range(rng.choice([1, 2, 5, 20])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(4)
        if k == 0 and i < len(b):
            b[i] = rng.randrange(1, 256)
        elif k == 1 and i < len(b):
            del b[i:i + rng.randrange(1, 6)]
        elif k == 2:
            b[i:i] = bytes(rng.choice([rng.randrange(1, 256), rng.choice(b"'\"`;-/*#%(),.=<>\\\n")]) for _ in range(rng.randrange(1, 5)))
        else:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + 12]
    return 'bytes', bytes(x for x in b if x)


def unit_hostile(exe, seed, idx, nstmt):
    res = Result()
    rng = random.Random(derive(seed, 'P10', idx))
    s = Sess(exe, res, 'P10/%d' % idx)
    s.open()
    pool = Pool(rng)
    t = mktable(rng, 'T0', ncols=rng.choice([1, 2, 3, 5]), p_notnull=0.2)
    u = mktable(rng, 'T1', taken=[c.name for c in t.cols], ncols=2)
    setup_table(s, rng, t, pool, rng.choice([0, 2, 9, 25]))
    setup_table(s, rng, u, pool, 3)
    canary = [(1, b'one'), (2, None), (None, b'three')]
    s.q('CREATE TABLE canary (cid INT, cname VARCHAR(10));')
    s.q("INSERT INTO canary VALUES (1,'one'),(2,NULL),(NULL,'three');")
    nm = [c.name for c in t.cols] + [c.name for c in u.cols] + ['T0', 'T1', 'T0', 'T1', 'T0.' + t.cols[0].name]
    for k in range(nstmt):
        kind, sql = hostile(rng, t, u, pool, nm)

        def cb(ev, kind=kind):
            res.evals += 1
            if ev['st'] not in (ERR, OKX, OKR):
                return 'no outcome at all: status %s' % ev['st']
            if ev['st'] == ERR and not errtext(ev):
                return 'rejected without an error message: '
            if ev.get('again'):
                return 'cursor yields rows after its end: '
            res.tally.add('outcome of %s: %s' % (kind, {ERR: 'error', OKX: 'executed', OKR: 'rows'}[ev['st']]))
            res.sig(kind, ev['st'], re.sub(r"'[^']*'|\d+|\w*\d\w*", '#', errtext(ev))[:60] if ev['st'] == ERR else len(ev.get('cols', ())))
        s.q(sql, cb, target=True)
        if k % 10 == 9:
            def can(ev):
                if ev['st'] != OKR:
                    return 'engine unusable after hostile statements: ' + errtext(ev)
                d = diff(bag(canary), bag(sqlm.rows_of(ev, 'cur')))
                return d and 'data of an uninvolved table changed: ' + d
            s.q('SELECT cid, cname FROM canary;', can, target=True)
    s.close(target=True)
    s.run(crash_is_violation=True, cpu=90)
    if idx < 2:
        res.samples.append({'statement': s.text[12][:300]})
    return res


# =====================================================================================================================
# P20 equivalent spellings of a statement mean the same


def cond_full(c, ref):
    if c[0] in ('and', 'or', 'xor'):
        return ['('] + cond_full(c[1], ref) + [')', c[0].upper(), '('] + cond_full(c[2], ref) + [')']
    return cond_toks(random.Random(0), c, ref, extra=0)


def expr_full(e):
    if e[0] == 'lit':
        return [e[1]]
    if e[0] == 'neg':
        return ['-', '('] + expr_full(e[1]) + [')']
    return ['('] + expr_full(e[1]) + [')', e[0], '('] + expr_full(e[2]) + [')']


def requote(rng, tok):
    """another spelling of the same literal"""
    if len(tok) >= 2 and tok[0] == "'" and tok[-1] == "'":
        v = tok[1:-1].replace("''", "'")
        r = rng.random()
        if r < 0.5:
            return '"' + v.replace('"', '""') + '"'
    return tok


def unit_lexical(exe, seed, idx, nstmt):
    res = Result()
    rng = random.Random(derive(seed, 'P20', idx))
    s = Sess(exe, res, 'P20/%d' % idx)
    s.open(0)
    s.open(1)
    pool = Pool(rng)
    t = mktable(rng, tabname(rng, rng.choice(['T', 'users'])), p_notnull=0.2)
    if rng.random() < 0.2:
        # names at and around 64 bytes and longer
        seen = {x.name for x in t.cols}
        for x in t.cols:
            n = x.name + '_' + 'w' * (rng.choice([60, 63, 64, 65, 100, 126]) - min(len(x.name), 50))
            if n[:127] not in seen:
                x.name = n[:127]
                seen.add(x.name)
    u = mktable(rng, 'U', taken=[c.name for c in t.cols], ncols=rng.choice([2, 2, 3]))
    if rng.random() < 0.35:
        # columns of one table named like the beginning of columns of the other
        seen = {x.name for x in t.cols} | {x.name for x in u.cols}
        for x in u.cols:
            base = rng.choice(t.cols)
            n = base.name + rng.choice(['1', '_', 'a', '_x', base.name])
            if rng.random() < 0.5:
                n = base.name[:rng.randrange(1, len(base.name) + 1)]
            n = n[:127]
            if n not in seen and n.lower() not in sqlm.RESERVED:
                x.name = n
                seen.add(n)
    last = {}

    def pair(toks, other=None, kind='', vary=True):
        """the plain spelling on database 0, another one on database 1"""
        plain = render(toks)
        o = [requote(rng, x) for x in (other or toks)]
        alt = noisy(rng, o) if vary else render(o)

        def a(ev):
            last['ev'] = ev

        def b(ev, plain=plain):
            x = last['ev']
            res.evals += 1
            res.sig(kind, x['st'], min(len(x.get('cur', ())), 30), len(alt) - len(plain) > 20)
            res.tally.add('pairs with outcome %d' % x['st'])
            if (x['st'], x['aff']) != (ev['st'], ev['aff']):
                return 'two spellings of a statement have different outcomes: %s (%s) versus %s (%s), plain spelling: %s' % (
                    (x['st'], x['aff']), errtext(x), (ev['st'], ev['aff']), errtext(ev), plain[:300])
            if x['st'] == OKR:
                if sorted(map(str, x['cols'])) != sorted(map(str, ev['cols'])):
                    return 'two spellings of a query return different columns: plain spelling: ' + plain[:300]
                d = diff(bag(rows_cur(x)), bag(rows_cur(ev)))
                return d and 'two spellings of a query return different rows: %s, plain spelling: %s' % (d, plain[:300])
        s.q(plain, a, db=0)
        s.q(alt, b, db=1, target=True)

    def same(name):
        s.dump(name, db=0)

        def f(old, ev):
            return None
        s.raw('T 1 ' + name, '-- dump 1 ' + name, lambda ev: cmpdump(name, ev))

    def cmpdump(name, ev):
        x = s.tabs.get((0, name))
        if ('missing' in x) != ('missing' in ev):
            return 'two spellings leave different tables behind: '
        if 'missing' in ev:
            return None
        if x['cols'] != ev['cols']:
            return 'two spellings create different columns: '
        d = diff(bag(sqlm.rows_of(x)), bag(sqlm.rows_of(ev)))
        return d and 'two spellings leave different rows behind: ' + d
    pair(create_toks(t), kind='create')
    pair(create_toks(u), kind='create')
    for _ in range(rng.choice([1, 3, 6])):
        pair(insert_toks(rng, t, [[x[0] for x in rand_row(rng, t, pool)] for _ in range(rng.choice([1, 5, 20]))]), kind='insert')
    pair(insert_toks(rng, u, [[x[0] for x in rand_row(rng, u, pool)] for _ in range(5)]), kind='insert')
    same(t.name)
    plainref = lambda c: c.name
    for _ in range(nstmt):
        c = rng.choice(t.cols)
        cnd = rand_cond(rng, t.cols, pool, rng.choice([1, 2, 3, 4]))
        ref = lambda c: c.name if rng.random() < 0.5 else t.name + '.' + c.name
        w1, w2 = cond_toks(rng, cnd, plainref, extra=0), cond_full(cnd, plainref)
        k = rng.choice(['sel', 'sel', 'sel', 'del', 'upd', 'ins', 'expr', 'group', 'join', 'bad', 'crt'])
        if k == 'sel':
            # qualified names too
            pair(['SELECT', '*', 'FROM', t.name, 'WHERE'] + w1, ['SELECT', '*', 'FROM', t.name, 'WHERE'] + cond_full(cnd, ref), kind='select')
        elif k == 'del':
            pair(['DELETE', 'FROM', t.name, 'WHERE'] + w1, ['DELETE', 'FROM', t.name, 'WHERE'] + w2, kind='delete')
            same(t.name)
        elif k == 'upd':
            h = ['UPDATE', t.name, 'SET', c.name, '=', pool.lit(c)[0], 'WHERE']
            pair(h + w1, h + w2, kind='update')
            same(t.name)
        elif k == 'ins':
            rows = [[x[0] for x in rand_row(rng, t, pool)] for _ in range(2)]
            a = insert_toks(rng, t, rows, into=True)
            b = insert_toks(rng, t, rows, [x.name for x in t.cols] if rng.random() < 0.5 else None, into=rng.random() < 0.5)
            pair(a, b, kind='insert')
            same(t.name)
        elif k == 'expr':
            nums = [x for x in t.cols if x.type in (INT, DBL)]
            if not nums:
                continue
            x = rng.choice(nums)
            e = rand_expr(rng, x.type, rng.choice([2, 3, 4]))
            rest = [y for y in t.cols if y.notnull and y is not x]
            vals = [pool.lit(y)[0] for y in rest]
            nmz = [y.name for y in rest] + [x.name]
            pair(insert_toks(rng, t, [vals + [expr_toks(rng, e, 0)]], nmz), insert_toks(rng, t, [vals + [expr_full(e)]], nmz), kind='expr')
            same(t.name)
        elif k == 'group':
            q = ['SELECT', c.name, ',', 'COUNT(', '*', ')', 'FROM', t.name]
            # the two lists of names have to be spelled alike (the maintainer's choice)
            one = rng.choice([plainref, lambda x: t.name + '.' + x.name])
            q2 = ['SELECT', one(c)] + q[2:]
            pair(q + ['WHERE'] + w1 + ['GROUP', 'BY', c.name], q2 + ['WHERE'] + cond_full(cnd, ref) + ['GROUP', 'BY', one(c)], kind='group')
        elif k == 'join':
            d = rng.choice(u.cols)
            same_t = [x for x in t.cols if x.type == d.type]
            both = {x: t for x in t.cols}
            both.update({x: u for x in u.cols})
            full = lambda x: both[x].name + '.' + x.name
            ta, tb = rng.choice([(t, u), (u, t)])
            if rng.random() < 0.4:
                # a product, with names qualified in one spelling only
                wh = rand_cond(rng, t.cols + u.cols, pool, rng.choice([0, 1, 2]))
                lst = [rng.choice(t.cols), rng.choice(u.cols), rng.choice(t.cols + u.cols)]
                rng.shuffle(lst)
                mk = lambda r: ['SELECT'] + sum([([','] if i else []) + [r(x)] for i, x in enumerate(lst)], []) + ['FROM', ta.name, ',', tb.name, 'WHERE']
                pair(mk(plainref) + cond_toks(rng, wh, plainref, extra=0), mk(full) + cond_full(wh, full), kind='product')
            elif same_t:
                x = rng.choice(same_t)
                pair(['SELECT', '*', 'FROM', ta.name, 'JOIN', tb.name, 'ON', x.name, '=', d.name],
                     ['SELECT', '*', 'FROM', ta.name, 'INNER', 'JOIN', tb.name, 'ON', full(d), '=', full(x)], kind='join')
        elif k == 'bad':
            r = rng.randrange(3)
            if r == 0:
                pair(['SELECT', 'nope', 'FROM', t.name, 'WHERE'] + w1, kind='bad')
            elif r == 1:
                pair(['UPDATE', t.name, 'SET', c.name, '=', bad_lit(rng, c, pool)], kind='bad')
            else:
                pair(['INSERT', 'INTO', t.name, 'VALUES', '('] + (['1', ','] * (len(t.cols) + 1))[:-1] + [')'], kind='bad')
            same(t.name)
        else:
            n = 'N%d' % rng.randrange(1000)
            x = mktable(rng, n, ncols=3)
            tk = create_toks(x)
            tk2 = ['INTEGER' if z == INT else 'VARCHARACTER(' if z == VC + '(' else z for z in tk]
            if rng.random() < 0.3:
                tk, tk2 = tk[:2] + ['IF', 'NOT EXISTS'] + tk[2:], tk2[:2] + ['IF', rng.choice(['not  exists', 'NOT\nEXISTS', 'Not\tExists'])] + tk2[2:]
            pair(tk, tk2, kind='create')
            same(n)
    s.close(0)
    s.close(1, target=True)
    s.run()
    if idx < 2:
        res.samples.append({'statement': s.text[-6][:400]})
    return res


# =====================================================================================================================
# P22 histories: the state is the net effect of the accepted statements, nothing else
class Model:
    def __init__(self):
        self.t = {}        # name -> Tab
        self.rows = {}     # name -> list of tuples


def gen_step(rng, m, pool, hist, prefix=''):
    """(sql, apply(model) -> expected outcome) ; the expected outcome is worked out from the model alone"""
    k = rng.choice(['ins'] * 5 + ['upd'] * 3 + ['del'] * 2 + ['sel'] * 4 + ['cnt'] * 2 + ['join'] + ['bad'] * 2 + ['create'])
    if k == 'create' and len(m.t) < 6 or not m.t:
        n = tabname(rng, prefix) + rng.choice(['Ta', 'Tb', 'tc', 'aT', 'bT', 'X1', 'X2']) + rng.choice(['', '', '_2'])
        if n not in m.t:
            t = mktable(rng, n, taken=[c.name for x in m.t.values() for c in x.cols] + list(m.t), ncols=rng.choice([1, 2, 3, 4, 7, 12]))
            m.t[n] = t
            m.rows[n] = []
            return render(create_toks(t)), ('x', 0)
    n = rng.choice(sorted(m.t))
    t = m.t[n]
    if k == 'bad' or (k == 'create'):
        o = m.t[rng.choice(sorted(m.t))]
        kl, sql = bad_statement(rng, t, o, list(m.t.values()), pool)
        return sql, ('err', kl)
    if k == 'ins':
        cnt = rng.choice([1, 1, 2, 5, 30, 100])
        rows = [rand_row(rng, t, pool) for _ in range(cnt)]
        m.rows[n] = m.rows[n] + [tuple(x[1] for x in r) for r in rows]
        return render(insert_toks(rng, t, [[x[0] for x in r] for r in rows])), ('x', cnt)
    cond = rand_cond(rng, t.cols, pool, rng.choice([0, 1, 1, 2])) if rng.random() < 0.9 else None
    hit = lambda r: cond is None or ev_(cond, t, r)
    w = ['WHERE'] + cond_toks(rng, cond, lambda c: c.name) if cond else []
    if k == 'upd':
        c = rng.choice(t.cols)
        if not c.notnull and rng.random() < 0.2:
            tx, v = 'NULL', None
        else:
            tx, v = pool.lit(c)
        i = t.cols.index(c)
        aff = sum(1 for r in m.rows[n] if hit(r))
        m.rows[n] = [r[:i] + (v,) + r[i + 1:] if hit(r) else r for r in m.rows[n]]
        return render(['UPDATE', n, 'SET', c.name, '=', tx] + w), ('x', aff)
    if k == 'del':
        if cond is None and rng.random() < 0.6:
            return gen_step(rng, m, pool, hist, prefix)
        aff = sum(1 for r in m.rows[n] if hit(r))
        m.rows[n] = [r for r in m.rows[n] if not hit(r)]
        return render(['DELETE', 'FROM', n] + w), ('x', aff)
    if k == 'cnt':
        c = rng.choice(t.cols)
        i = t.cols.index(c)
        rr = [r for r in m.rows[n] if hit(r)]
        if rng.random() < 0.5:
            return render(['SELECT', 'COUNT(', '*', ')', ',', 'COUNT(', c.name, ')', 'FROM', n] + w), ('r', bag([(len(rr), sum(1 for r in rr if r[i] is not None))]))
        g = Counter(canon(r[i]) for r in rr)
        rep = {canon(r[i]): r[i] for r in rr}
        return render(['SELECT', 'COUNT(', '*', ')', ',', c.name, 'FROM', n] + w + ['GROUP', 'BY', c.name]), ('r', bag([(x, rep[q]) for q, x in g.items()]))
    if k == 'join' and len(m.t) > 1:
        o = m.t[rng.choice([x for x in sorted(m.t) if x != n])]
        pr = [(a, b) for a in t.cols for b in o.cols if a.type == b.type]
        if pr and len(m.rows[n]) * len(m.rows[o.name]) < 40000:
            a, b = rng.choice(pr)
            ia, ib = t.cols.index(a), o.cols.index(b)
            x, y = rng.choice(t.cols), rng.choice(o.cols)
            ix, iy = t.cols.index(x), o.cols.index(y)
            by = {}
            for q in m.rows[o.name]:
                if q[ib] is not None:
                    by.setdefault(q[ib], []).append(q)
            exp = bag([(r[ix], q[iy]) for r in m.rows[n] if r[ia] is not None for q in by.get(r[ia], ())])
            return render(['SELECT', x.name, ',', y.name, 'FROM', n, 'JOIN', o.name, 'ON', a.name, '=', b.name]), ('r', exp)
    lst = [rng.choice(t.cols) for _ in range(rng.choice([1, 2, len(t.cols)]))]
    ii = [t.cols.index(c) for c in lst]
    toks = ['SELECT']
    for j, c in enumerate(lst):
        toks += ([','] if j else []) + [c.name]
    return render(toks + ['FROM', n] + w), ('r', bag([tuple(r[i] for i in ii) for r in m.rows[n] if hit(r)]))


def judge(ev, exp):
    k, v = exp
    if k == 'err':
        return None if ev['st'] == ERR else 'invalid statement accepted (%s): ' % v
    if k == 'x':
        if ev['st'] != OKX:
            return 'valid statement rejected: ' + errtext(ev)
        return None if ev['aff'] == v else 'affected-row count: %d instead of %d' % (ev['aff'], v)
    if ev['st'] != OKR:
        return 'valid query rejected: ' + errtext(ev)
    d = diff(v, bag(rows_cur(ev)))
    return d and 'query result is not what the history of statements implies: ' + d


def unit_history(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P22', idx, scale))
    s = Sess(exe, res, 'P22/%d' % idx)
    s.open()
    pool = Pool(rng, rng.choice([3, 6, 15]))
    m = Model()
    for i in range(nstmt):
        sql, exp = gen_step(rng, m, pool, i)

        def cb(ev, exp=exp, nrows=sum(map(len, m.rows.values())), i=i):
            res.evals += 1
            msg = judge(ev, exp)
            if not msg:
                res.sig(exp[0], exp[1] if exp[0] == 'err' else min(20, len(exp[1]) if exp[0] == 'r' else exp[1]), nrows.bit_length(), i.bit_length())
            return msg
        s.q(sql, cb, target=True)
        if i % (150 if scale else 20) == 19 or i == nstmt - 1:
            for n in sorted(m.t):
                rows = bag(m.rows[n])

                def st(ev, rows=rows, t=m.t[n]):
                    if 'missing' in ev:
                        return 'table disappeared: '
                    res.tally.add('tables_compared')
                    for z in colcheck(t, ev):
                        return z
                    d = diff(rows, bag(sqlm.rows_of(ev)))
                    return d and 'state is not the net effect of the statements: ' + d
                s.raw('T 0 ' + n, '-- dump ' + n, st)
    s.close(target=True)
    s.run(crash_is_violation=True, cpu=120)
    res.tally.add('rows_at_end', sum(map(len, m.rows.values())))
    if idx < 2:
        res.samples.append({'history': [x[:120] for x in s.text[-8:]]})
    return res


# =====================================================================================================================
# P21 databases of one process don't influence each other
def unit_isolation(exe, seed, idx, nstmt, scale=None):
    """every database gets a history of its own, with the same table names on purpose; its statements interleave with those
    of the others, and it's judged by its own model"""
    res = Result()
    rng = random.Random(derive(seed, 'P21', idx, scale))
    s = Sess(exe, res, 'P21/%d' % idx)
    k = 16 if scale else rng.choice([2, 3, 4, 8])
    pools = [Pool(rng, 4) for _ in range(k)]
    models = [None] * k
    switches = 0
    prev = None
    locked = {}
    ok0 = lambda ev: None if ev['lock'] == 0 else 'database cannot be locked or unlocked'
    for i in range(nstmt):
        # locks of a database concern nobody who uses another one
        for e in [x for x in locked if locked[x] <= i]:
            s.raw('U %d' % e, '-- unlock %d' % e, ok0, True)
            del locked[e]
        d = rng.randrange(k)
        if d in locked:
            continue
        if models[d] and rng.random() < 0.03 and len(locked) < k - 1:
            s.raw('L %d' % d, '-- lock %d' % d, ok0, True)
            locked[d] = i + rng.choice([1, 4, 15])
            continue
        if locked:
            res.tally.add('statements_while_another_is_locked')
        if models[d] is None:
            s.raw('O %d' % d, '-- open %d' % d, lambda ev: None if ev['open'] == 0 else 'database cannot be opened: %s' % ev['open'], True)
            models[d] = Model()
            continue
        if rng.random() < 0.02:
            s.close(d, target=True)
            models[d] = None
            continue
        switches += d != prev
        prev = d
        sql, exp = gen_step(rng, models[d], pools[d], i)

        def cb(ev, exp=exp, d=d, live=sum(x is not None for x in models)):
            res.evals += 1
            msg = judge(ev, exp)
            if not msg:
                res.sig(exp[0], exp[1] if exp[0] == 'err' else min(12, len(exp[1]) if exp[0] == 'r' else exp[1]), live)
            return msg and 'database %d of %d: %s' % (d, live, msg)
        s.q(sql, cb, db=d, target=True)
        if i % (60 if scale else 15) == 14:
            for e in range(k):
                if models[e]:
                    for n in ('Ta', 'Tb', 'tc', 'aT', 'bT', 'X1', 'X2'):
                        t = models[e].t.get(n)
                        rows = bag(models[e].rows[n]) if t else None

                        def st(ev, rows=rows, t=t, e=e):
                            if ('missing' in ev) != (t is None):
                                return 'database %d: table %s' % (e, 'disappeared' if t else 'appeared')
                            if t:
                                for z in colcheck(t, ev):
                                    return z
                                x = diff(rows, bag(sqlm.rows_of(ev)))
                                return x and 'database %d: state is not the effect of its own statements: %s' % (e, x)
                        s.raw('T %d %s' % (e, n), '-- dump %d %s' % (e, n), st)
    for e in locked:
        s.raw('U %d' % e, '-- unlock %d' % e, ok0, True)
    for e in range(k):
        if models[e]:
            s.close(e, target=True)
    s.run(crash_is_violation=True, cpu=120)
    res.tally.add('switches_between_databases', switches)
    if idx < 2:
        res.samples.append({'history': [x[:120] for x in s.text[-8:]]})
    return res
