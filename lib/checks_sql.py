"""Checks over SQL statements executed by the real engine (sanitized build), judged by the transition oracle of sqlm."""
import os, random
from collections import Counter
import sqlm, vf
from sqlm import *
from sess import Sess
from vf import Result, derive

ERR, OKX, OKR = 2, 1, 0


def errtext(ev):
    return bytes.fromhex(ev.get('err', '')).decode('latin1').strip()


def setup_table(s, rng, t, pool, nrows, db=0, p_null=0.2, chunk=None):
    s.q(render(create_toks(t)), db=db)
    left = nrows
    while left > 0:
        k = min(left, chunk or rng.choice([1, 3, 10, 50, 100]))
        s.q(render(insert_toks(rng, t, [[x[0] for x in rand_row(rng, t, pool, p_null)] for _ in range(k)])), db=db)
        left -= k


def nrows_for(rng, big):
    return rng.choice([0, 1, 2, 5, 12, 30]) if rng.random() > big else rng.choice([60, 150, 300, 500])


# the same checks at sizes where counters, buffers and depths that are too small show
def SCOLS(rng, scale):
    return rng.choice([1, 2, 3]) if scale == 'rows' else rng.choice([100, 127, 128]) if scale == 'cols' else rng.choice([1, 3, 6])


def SROWS(rng, scale):
    return rng.choice([66000, 4000, 33000, 66000]) if scale == 'rows' else rng.choice([5, 60])


def SCOND(rng, scale, cols, pool, features=('cmp', 'in', 'null', 'ff', 'vf', 'vv', 'cnull')):
    return big_cond(rng, cols, pool, rng.choice([20, 65, 130, 257, 320]), features) if scale == 'cond' else None


# =====================================================================================================================
# P01 INSERT
def unit_insert(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P01', idx, scale))
    s = Sess(exe, res, 'P01/%d' % idx)
    s.open()
    tabs = []
    for i in range(rng.choice([1, 1, 2, 3]) if not scale else 1):
        t = mktable(rng, tabname(rng, rng.choice(['T', 'Tab', 'abc', 'R_1']) + str(i)), ncols=rng.choice([1, 2, 3]) if scale in ('rows', 'total') else rng.choice([None, None, None, 30, 64, 100, 128]))
        if scale == 'wide':
            t = mktable(rng, t.name, ncols=rng.choice([1, 3, 20]), types=[VC, VC, INT])
            for c in t.cols:
                if c.type == VC:
                    c.n = rng.choice([1000, 4000, 4096, 4097, 9998, 9999])
        tabs.append(t)
        s.q(render(create_toks(t)))
        s.dump(t.name)
    pool = Pool(rng, rng.choice([3, 20, 200]))
    noise = rng.random() < 0.3
    for _ in range(nstmt):
        t = rng.choice(tabs)
        wide = len(t.cols) > 25
        k = rng.choice([1, 1, 1, 2, 3, 7] + ([20, 60, 120] if not wide else [10]))
        if scale == 'rows':
            k = rng.choice([255, 256, 257, 1000, 1024, 2000, 3000])
        if scale == 'total':
            k = 6000
        use = None
        cols = t.cols
        if rng.random() < 0.5:
            cols = [c for c in t.cols if c.notnull or rng.random() < 0.7]
            if not cols:
                cols = [rng.choice(t.cols)]
            cols = rng.sample(cols, len(cols))
            use = [c.name for c in cols]
        rows, toks = [], []
        shape = set()
        for _ in range(k):
            vals = {}
            line = []
            for c in cols:
                r = rng.random()
                if not c.notnull and r < 0.15:
                    line.append('NULL')
                    vals[c.name] = None
                    shape.add('null')
                elif c.type in (INT, DBL) and r < 0.3:
                    v, e = None, None
                    for _try in range(8):
                        e = rand_expr(rng, c.type, rng.choice([1, 2, 3, 4]))
                        if e[0] == 'lit':
                            continue
                        try:
                            v = eval_expr(e, c.type)
                            if v is None and c.notnull:
                                continue
                            break
                        except Overflow:
                            e = None
                    if e is None or e[0] == 'lit' or (v is None and c.notnull):
                        tx, v = pool.lit(c)
                        line.append(tx)
                    else:
                        line.append(expr_toks(rng, e))
                        shape.add('expr')
                    vals[c.name] = v
                elif c.type == VC and r < 0.25:
                    # as long as the column takes
                    tx, v = long_str(rng, c.n - 1)
                    line.append(tx)
                    vals[c.name] = v
                    shape.add('full%d' % (c.n > 255))
                else:
                    tx, v = pool.lit(c) if rng.random() < 0.7 else pool.fresh(c.type)
                    if c.type == VC and len(v) >= c.n:
                        tx, v = pool.lit(c)
                    line.append(tx)
                    vals[c.name] = v
            toks.append(line)
            rows.append(tuple(vals.get(c.name) for c in t.cols))
        tk = insert_toks(rng, t, toks, use, into=rng.random() < 0.8)
        sql = noisy(rng, tk) if noise else render(tk)

        def cb(ev, n=k):
            if ev['st'] != OKX:
                return 'valid INSERT rejected: %s' % errtext(ev)
            if ev['aff'] != n:
                return 'INSERT affected-row count: reported %d for %d rows' % (ev['aff'], n)
        s.q(sql, cb, target=True)

        def after(old, new, rows=rows, t=t):
            exp = bag(sqlm.rows_of(old)) + bag(rows)
            d = diff(exp, bag(sqlm.rows_of(new)))
            res.evals += 1
            res.tally.add('rows_checked', len(rows))
            for n_ in colcheck(t, new):
                return n_
            return d and 'stored rows differ after INSERT: ' + d
        s.dump(t.name, cb=after)
        res.sig('i', tuple(c.type for c in cols), use is not None, tuple(sorted(shape)), k)
        # the other tables are left alone
        if len(tabs) > 1 and rng.random() < 0.3:
            o = rng.choice([x for x in tabs if x is not t])
            s.dump(o.name, cb=lambda a, b: None if a['rows'] == b['rows'] else 'another table changed: by INSERT')
        if rng.random() < 0.4:
            # and the way a user sees it: SELECT returns what is stored
            def rd(ev, t=t):
                if ev['st'] != OKR:
                    return 'reading the table back was rejected: ' + errtext(ev)
                want = s.rows(t.name)
                names = colnames(ev)
                order = [names.index(t.name + '.' + c.name) for c in t.cols]
                got = [tuple(r[i] for i in order) for r in sqlm.rows_of(ev, 'cur')] if 'ACCESSOR-MISMATCH' not in str(ev['cur'])[:10 ** 6] else None
                if got is None:
                    return 'integer accessor disagrees with the stored value: '
                d = diff(bag(want), bag(got))
                return d and 'SELECT differs from what was inserted: ' + d
            lst = rng.choice(['*', 'all'])
            if lst == '*' or len(t.cols) > 100:
                s.q('SELECT * FROM %s;' % t.name, rd, target=True)
            else:
                s.q('SELECT %s FROM %s;' % (', '.join(c.name for c in rng.sample(t.cols, len(t.cols))), t.name), rd, target=True)
    s.close()
    s.run()
    if idx < 2:
        res.samples.append({'statement': s.text[5][:300] if len(s.text) > 5 else ''})
    return res


def colcheck(t, ev):
    got = [(bytes.fromhex(c[0]).decode('latin1'), c[1]) for c in ev['cols']]
    want = [(c.name, TCODE[c.type]) for c in t.cols]
    if got != want:
        yield 'table columns changed: %s' % got[:5]


# =====================================================================================================================
# P02 SELECT ... WHERE over one table
def sel_from(rng, t):
    """FROM text and how columns may be referred to"""
    r = rng.random()
    if r < 0.6:
        return [t.name], lambda c: c.name if rng.random() < 0.7 else t.name + '.' + c.name
    a = rng.choice(['x', 'al', 'Z1'])
    while a == t.name or a in t.by:
        a += 'q'
    f = [t.name] + (['AS'] if r < 0.8 else []) + [a]
    return f, lambda c: c.name if rng.random() < 0.5 else a + '.' + c.name


def unit_select(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P02', idx, scale))
    s = Sess(exe, res, 'P02/%d' % idx)
    s.open()
    pool = Pool(rng)
    t = mktable(rng, tabname(rng, rng.choice(['T', 'users', 'A'])), ncols=SCOLS(rng, scale) if scale else rng.choice([None] * 14 + [66, 100]), p_notnull=0.1)
    setup_table(s, rng, t, pool, SROWS(rng, scale) if scale else nrows_for(rng, 0.3), p_null=rng.choice([0, 0.2, 0.5]), chunk=1000 if scale == 'rows' else None)
    if rng.random() < 0.4:
        # holes left by deleted / rewritten rows
        c = rng.choice(t.cols)
        s.q('DELETE FROM %s WHERE %s = %s;' % (t.name, c.name, pool.lit(c)[0]))
        c = rng.choice(t.cols)
        s.q('UPDATE %s SET %s = %s;' % (t.name, c.name, pool.lit(c)[0])) if rng.random() < 0.2 else None
        setup_more(s, rng, t, pool, rng.choice([1, 20]))
    s.dump(t.name)
    for _ in range(nstmt):
        frm, ref = sel_from(rng, t)
        cond = SCOND(rng, scale, t.cols, pool) or rand_cond(rng, t.cols, pool, rng.choice([0, 0, 1, 1, 2, 3, 4]))
        star = rng.random() < 0.4
        lst = t.cols if star else [rng.choice(t.cols) for _ in range(rng.choice([30, 64, 65, 100, 128]) if scale == 'cols' else rng.choice([1, 1, 2, 3, len(t.cols)]))]
        toks = ['SELECT']
        if star:
            toks.append('*')
        else:
            for i, c in enumerate(lst):
                toks += ([','] if i else []) + [ref(c)]
        toks += ['FROM'] + frm + ['WHERE'] + cond_toks(rng, cond, ref)

        def cb(ev, lst=lst, star=star, cond=cond):
            if ev['st'] != OKR:
                return 'valid SELECT rejected: %s' % errtext(ev)
            base = s.rows(t.name)
            names = colnames(ev)
            want_names = [t.name + '.' + c.name for c in lst]
            if star:
                if sorted(names) != sorted(want_names):
                    return 'columns of the result: %s' % names
                idxs = [names.index(n) for n in want_names]
            else:
                if names != want_names:
                    return 'columns of the result: %s instead of %s' % (names, want_names)
                idxs = range(len(names))
            ii = [t.idx(c.name) for c in lst]
            exp = []
            for r in base:
                if ev_(cond, t, r):
                    exp.append(tuple(r[i] for i in ii))
            got = [r if len(r) != len(idxs) else tuple(r[i] for i in idxs) for r in rows_cur(ev)]
            res.evals += 1
            res.tally.add('rows_judged', len(base))
            res.tally.add('rows_matching', len(exp))
            if base and 0 < len(exp) < len(base):
                res.sig('w', tuple(sorted(set(cond_ops(cond)))), len(exp) * 8 // len(base))
            d = diff(bag(exp), bag(got))
            return d and 'SELECT returned the wrong rows: ' + d
        s.q(render(toks), cb, target=True)
        if rng.random() < 0.15:
            s.dump(t.name, cb=lambda a, b: None if a['rows'] == b['rows'] else 'SELECT changed the table: ')
    s.close()
    s.run()
    if idx < 2:
        res.samples.append({'statement': s.text[-2][:400]})
    return res


def setup_more(s, rng, t, pool, k, db=0):
    if k:
        s.q(render(insert_toks(rng, t, [[x[0] for x in rand_row(rng, t, pool)] for _ in range(k)])), db=db)


def ev_(cond, t, r):
    return sqlm.ev(cond, {c: r[i] for i, c in enumerate(t.cols)})


def rows_cur(ev, accessor=True):
    """the rows a result returned; if the accessor of integers contradicted one of them, there's an impossible row as well"""
    bad = any(x == 'ACCESSOR-MISMATCH' for x in ev['cur'])
    if bad:
        ev = dict(ev, cur=[x for x in ev['cur'] if x != 'ACCESSOR-MISMATCH'])
    rows = sqlm.rows_of(ev, 'cur')
    return rows + [('query_column_int64 reads other values',)] if bad and accessor else rows


# =====================================================================================================================
# P03 DELETE / P04 UPDATE
def unit_delupd(exe, seed, idx, nstmt, kind, scale=None):
    res = Result()
    rng = random.Random(derive(seed, kind, idx, scale))
    s = Sess(exe, res, '%s/%d' % (kind, idx))
    s.open()
    pool = Pool(rng)
    t = mktable(rng, tabname(rng, rng.choice(['T', 'users', 'A'])), ncols=SCOLS(rng, scale) if scale else rng.choice([None] * 14 + [66, 100]), p_notnull=0.15)
    o = mktable(rng, 'other', ncols=2)
    big = rng.random() < 0.3
    setup_table(s, rng, t, pool, SROWS(rng, scale) if scale else rng.choice([100, 200, 400]) if big else rng.choice([0, 1, 4, 12, 30]),
                p_null=rng.choice([0, 0.2, 0.5]), chunk=1000 if scale == 'rows' else None)
    setup_table(s, rng, o, pool, 3)
    s.dump(o.name)
    s.dump(t.name)
    for _ in range(nstmt):
        if kind == 'P03' or rng.random() < 0.2:
            setup_more(s, rng, t, pool, rng.choice([0, 2000, 300]) if scale == 'rows' else rng.choice([0, 0, 1, 3, 10]))
            s.dump(t.name)
        where = rng.random() > 0.07
        cond = (SCOND(rng, scale, t.cols, pool) or rand_cond(rng, t.cols, pool, rng.choice([0, 0, 1, 1, 2, 3]))) if where else None
        if kind == 'P03':
            toks = ['DELETE', 'FROM', t.name]
            sets = None
        else:
            cs = rng.sample(t.cols, rng.choice([1, 1, 1, 2, min(3, len(t.cols)), len(t.cols)]) if len(t.cols) > 1 else 1)
            sets = {}
            toks = ['UPDATE', t.name, 'SET']
            for i, c in enumerate(cs):
                if not c.notnull and rng.random() < 0.15:
                    tx, v = 'NULL', None
                elif c.type == VC and rng.random() < 0.2:
                    tx, v = long_str(rng, c.n - 1)
                else:
                    tx, v = pool.lit(c)
                sets[c.name] = v
                toks += ([','] if i else []) + [c.name, '=', tx]
        if where:
            toks += ['WHERE'] + cond_toks(rng, cond, lambda c: c.name)
        st = {}

        def cb(ev, cond=cond, st=st):
            if ev['st'] != OKX:
                return 'valid statement rejected: %s' % errtext(ev)
            st['aff'] = ev['aff']

        s.q(render(toks), cb, target=True)

        def after(old, new, cond=cond, st=st, sets=sets):
            a = sqlm.rows_of(old)
            hit = [r for r in a if cond is None or ev_(cond, t, r)]
            keep = bag(a) - bag(hit)
            if sets is None:
                exp = keep
            else:
                exp = keep + bag([tuple(sets.get(c.name, r[i]) if c.name in sets else r[i] for i, c in enumerate(t.cols)) for r in hit])
            res.evals += 1
            res.tally.add('rows_judged', len(a))
            res.tally.add('rows_hit', len(hit))
            if a and (0 < len(hit) < len(a)):
                res.sig(kind, tuple(sorted(set(cond_ops(cond)))), len(hit) * 8 // len(a), len(sets or ()))
            if st.get('aff') != len(hit):
                return 'affected-row count: reported %s, %d rows satisfied the condition' % (st.get('aff'), len(hit))
            d = diff(exp, bag(sqlm.rows_of(new)))
            return d and 'table differs after the statement: ' + d
        s.dump(t.name, cb=after)
        if rng.random() < 0.2:
            s.dump(o.name, cb=lambda a, b: None if a['rows'] == b['rows'] else 'another table changed: ')
        if rng.random() < 0.2:
            def rd(ev):
                if ev['st'] != OKR:
                    return 'reading the table back was rejected: ' + errtext(ev)
                names = colnames(ev)
                order = [names.index(t.name + '.' + c.name) for c in t.cols]
                d = diff(bag(s.rows(t.name)), bag([tuple(r[i] for i in order) for r in rows_cur(ev, False)]))
                return d and 'SELECT disagrees with the stored rows: ' + d
            s.q('SELECT * FROM %s;' % t.name, rd, target=True)
    s.close(target=True)
    s.run()
    if idx < 2:
        res.samples.append({'statement': [x for x in s.text if x.startswith(('DEL', 'UPD'))][-1][:400]})
    return res


# =====================================================================================================================
# P05 joins
def unit_join(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P05', idx, scale))
    s = Sess(exe, res, 'P05/%d' % idx)
    s.open()
    k = rng.choice([2, 2, 2, 3, 3, 4])
    if scale:
        k = 2 if scale == 'rows' else rng.choice([5, 6, 8]) if scale == 'tables' else 3
    pool = Pool(rng, rng.choice([2, 3, 6]))
    types = rng.choice([[INT], [INT, VC], TYPES, TYPES])
    taken, tabs = [], []
    wide = rng.randrange(k) if rng.random() < 0.1 else None
    for i in range(k):
        t = mktable(rng, tabname(rng, rng.choice(['T', 'tab', 'X']) + str(i)), taken=taken + ['T0', 'T1'],
                    ncols=rng.choice([65, 70, 100]) if i == wide else rng.choice([1, 2, 3, 4, 6]), types=types, p_notnull=0.1)
        taken += [c.name for c in t.cols]
        tabs.append(t)
    sizes = {2: rng.choice([(5, 4), (12, 9), (0, 5), (1, 1), (90, 40), (40, 130)]), 3: rng.choice([(4, 5, 6), (3, 0, 4), (10, 7, 12)]),
             4: rng.choice([(3, 2, 3, 4), (2, 2, 2, 2)])}.get(k)
    if scale:
        sizes = rng.choice([(260, 260), (1100, 62), (33, 2100)]) if scale == 'rows' else [rng.choice([1, 2, 2, 3]) for _ in range(k)]
    for t, n in zip(tabs, sizes):
        setup_table(s, rng, t, pool, n, p_null=rng.choice([0, 0.15, 0.4]))
        if rng.random() < 0.3:
            c = rng.choice(t.cols)
            s.q('DELETE FROM %s WHERE %s = %s;' % (t.name, c.name, pool.lit(c)[0]))
            setup_more(s, rng, t, pool, 2)
        s.dump(t.name)
    idle = []
    for _ in range(nstmt):
        order = rng.sample(tabs, rng.choice([2, k]))
        alias = {}
        for i_, t in enumerate(order):
            if rng.random() < 0.25:
                alias[t.name] = ('q' + t.name if len(t.name) < 100 and rng.random() < 0.8 and not t.name.startswith('Kwq') else
                                 rng.choice(['al', 'A_', 'L' * 125, 'Kwq5Zt_' + rng.choice(['select', 'stmt', 'where', 'name', 'on'])])) + ('%d' % tabs.index(t) if i_ else '')
                if alias[t.name] in [x.name for x in tabs] + [v for q, v in alias.items() if q != t.name]:
                    del alias[t.name]
        r_ = rng.random()
        if r_ < 0.05:
            # an alias that is the name of a table that isn't in the query
            off = [x.name for x in tabs if x not in order] + ['zzIdle']
            if not idle:
                idle.append(1)
                s.q('CREATE TABLE zzIdle (zzi INT);')
            alias[rng.choice(order).name] = rng.choice(off)
        elif r_ < 0.09 and len(order) == 2:
            # every table under the name of another one
            alias = {order[0].name: order[1].name, order[1].name: order[0].name}
        allcols = [(t, c) for t in order for c in t.cols]
        owner = {c: t for t, c in allcols}

        def ref(c):
            t = owner[c]
            if rng.random() < 0.5:
                return c.name
            return alias.get(t.name, t.name) + '.' + c.name
        comma = rng.random() < 0.35
        toks = []
        conds = []
        feats = ('cmp', 'ff', 'vf')  # ON takes comparisons combined with logical operators only
        for i, t in enumerate(order):
            nm = [t.name] + ([rng.choice(['AS', ''])] if t.name in alias else []) + ([alias[t.name]] if t.name in alias else [])
            nm = [x for x in nm if x]
            if i == 0:
                toks += nm
            elif comma:
                toks += [','] + nm
            else:
                avail = [c for tt in order[:i + 1] for c in tt.cols]
                cnd = None
                left = [c for tt in order[:i] for c in tt.cols]
                pairs = [(a, b) for a in left for b in t.cols if a.type == b.type]
                if pairs and rng.random() < 0.8:
                    a, b = rng.choice(pairs)
                    if rng.random() < 0.5:
                        a, b = b, a
                    cnd = ('cmp', rng.choice(['=', '=', '='] + ops_for(a.type)), ('c', a), ('c', b))
                    if rng.random() < 0.3:
                        cnd = (rng.choice(['and', 'or']), cnd, rand_cond(rng, avail, pool, 1, features=feats))
                else:
                    cnd = SCOND(rng, scale, avail, pool, feats) or rand_cond(rng, avail, pool, 1, features=feats)
                conds.append(cnd)
                toks += rng.choice([['JOIN'], ['INNER', 'JOIN']]) + nm + ['ON'] + cond_toks(rng, cnd, ref)
        wh = rand_cond(rng, [c for _, c in allcols], pool, rng.choice([0, 1, 2])) if rng.random() < 0.5 else None
        if scale == 'cond':
            wh = SCOND(rng, scale, [c for _, c in allcols], pool)
        if comma and rng.random() < 0.5:
            pairs = [(a, b) for ta, a in allcols for tb, b in allcols if ta is not tb and a.type == b.type]
            if pairs:
                a, b = rng.choice(pairs)
                e = ('cmp', '=', ('c', a), ('c', b))
                wh = e if wh is None else ('and', e, wh)
        star = rng.random() < 0.4
        lst = [c for _, c in allcols] if star else [rng.choice(allcols)[1] for _ in range(rng.choice([1, 2, 4]))]
        head = ['SELECT'] + (['*'] if star else sum([([','] if i else []) + [ref(c)] for i, c in enumerate(lst)], []))
        sql = render(head + ['FROM'] + toks + ((['WHERE'] + cond_toks(rng, wh, ref)) if wh else []))

        def cb(ev, order=order, conds=conds, wh=wh, lst=lst, star=star, owner=owner, comma=comma):
            if ev['st'] != OKR:
                return 'valid join rejected: %s' % errtext(ev)
            names = colnames(ev)
            want = [owner[c].name + '.' + c.name for c in lst]
            if star:
                if sorted(names) != sorted(want):
                    return 'columns of the result: %s' % names
                idxs = [names.index(n) for n in want]
            elif names != want:
                return 'columns of the result: %s instead of %s' % (names, want)
            else:
                idxs = range(len(names))
            envs = [{}]
            for i, t in enumerate(order):
                rows = s.rows(t.name)
                nxt = []
                for e in envs:
                    for r in rows:
                        f = dict(e)
                        for j, c in enumerate(t.cols):
                            f[c] = r[j]
                        if comma or i == 0 or sqlm.ev(conds[i - 1], f):
                            nxt.append(f)
                envs = nxt
            allp = len(envs)
            if wh:
                envs = [e for e in envs if sqlm.ev(wh, e)]
            exp = [tuple(e[c] for c in lst) for e in envs]
            got = [r if len(r) != len(idxs) else tuple(r[i] for i in idxs) for r in rows_cur(ev)]
            res.evals += 1
            res.tally.add('joined_rows', len(exp))
            if exp:
                res.sig('j', len(order), comma, tuple(sorted(set(sum([cond_ops(c) for c in conds], [])))), wh is not None, min(len(exp), 30))
            d = diff(bag(exp), bag(got))
            return d and 'join returned the wrong rows: ' + d
        s.q(sql, cb, target=True)
    for t in tabs:
        s.dump(t.name, cb=lambda a, b: None if a['rows'] == b['rows'] else 'a join changed a table: ')
    s.close()
    s.run()
    if idx < 2:
        res.samples.append({'statement': [x for x in s.text if x.startswith('SEL')][-1][:500]})
    return res


# =====================================================================================================================
# P06 GROUP BY / COUNT
def unit_group(exe, seed, idx, nstmt, scale=None):
    res = Result()
    rng = random.Random(derive(seed, 'P06', idx, scale))
    s = Sess(exe, res, 'P06/%d' % idx)
    s.open()
    pool = Pool(rng, rng.choice([1, 2, 3, 8]) if scale != 'groups' else 4000)
    t = mktable(rng, tabname(rng, rng.choice(['T', 'grp'])), ncols={'rows': 2, 'groups': 3, 'cols': 20}[scale] if scale else rng.choice([1, 2, 3, 4, 6] * 4 + [70]),
                types=[INT, DBL, VC] if scale == 'groups' else None, p_notnull=0.15)
    u = mktable(rng, 'U', taken=[c.name for c in t.cols] + ['T', 'grp', 'U'], ncols=rng.choice([1, 2]), p_notnull=0.15)
    setup_table(s, rng, t, pool, {'rows': 66000, 'groups': 3000, 'cols': 100}[scale] if scale else nrows_for(rng, 0.3), p_null=rng.choice([0, 0.3, 0.6]), chunk=1000 if scale in ('rows', 'groups') else None)
    setup_table(s, rng, u, pool, rng.choice([0, 1, 5]), p_null=0.2)
    if rng.random() < 0.4:
        c = rng.choice(t.cols)
        s.q('DELETE FROM %s WHERE %s = %s;' % (t.name, c.name, pool.lit(c)[0]))
        setup_more(s, rng, t, pool, rng.choice([1, 20]))
    s.dump(t.name)
    s.dump(u.name)
    for _ in range(nstmt):
        join = rng.random() < 0.2 and scale in (None, 'cols')
        tabs = [t, u] if join else [t]
        cols = [c for x in tabs for c in x.cols]
        owner = {c: x for x in tabs for c in x.cols}
        # the grammar of the engine wants the select list and GROUP BY to spell a column the same way
        spell = {c: c.name if rng.random() < 0.6 else owner[c].name + '.' + c.name for c in cols}
        ref = spell.get
        mode = rng.choice(['group', 'group', 'groupcount', 'groupcount', 'count'])
        gcols = [] if mode == 'count' else rng.sample(cols, rng.choice([4, 7, 12, 20]) if scale == 'cols' else rng.choice([1, 1, 2, min(3, len(cols))]) if len(cols) > 1 else 1)
        items = []
        if gcols:
            items += [('c', c) for c in gcols if rng.random() < 0.85]
        ncnt = 0 if mode == 'group' else rng.choice([1, 10, 40]) if scale == 'cols' else rng.choice([1, 1, 2, 3])
        for _k in range(ncnt):
            items.append(('n', None if rng.random() < 0.5 else rng.choice(cols)))
        if not items:
            items = [('c', gcols[0])]
        rng.shuffle(items)
        cref = {}
        toks = ['SELECT']
        for i, (k, c) in enumerate(items):
            if i:
                toks.append(',')
            if k == 'c':
                toks.append(ref(c))
            elif c is None:
                toks += ['COUNT(', '*', ')']
            else:
                toks += ['COUNT(', ref(c), ')']
        toks += ['FROM', t.name]
        on = None
        if join:
            if rng.random() < 0.5:
                toks += [',', u.name]
            else:
                on = rand_cond(rng, cols, pool, 1, features=('cmp', 'ff'))
                toks += ['JOIN', u.name, 'ON'] + cond_toks(rng, on, ref)
        wh = rand_cond(rng, cols, pool, rng.choice([0, 1])) if rng.random() < 0.4 else None
        if wh:
            toks += ['WHERE'] + cond_toks(rng, wh, ref)
        if gcols:
            toks += ['GROUP', 'BY']
            for i, c in enumerate(rng.sample(gcols, len(gcols))):
                toks += ([','] if i else []) + [ref(c)]

        def cb(ev, items=items, gcols=gcols, wh=wh, on=on, join=join, tabs=tabs):
            if ev['st'] != OKR:
                return 'valid aggregate query rejected: %s' % errtext(ev)
            envs = [dict(zip(t.cols, r)) for r in s.rows(t.name)]
            if join:
                envs = [dict(e, **{}) | dict(zip(u.cols, r)) for e in envs for r in s.rows(u.name)]
                if on:
                    envs = [e for e in envs if sqlm.ev(on, e)]
            if wh:
                envs = [e for e in envs if sqlm.ev(wh, e)]
            groups = {}
            for e in envs:
                groups.setdefault(tuple(canon(e[c]) for c in gcols), []).append(e)
            if not gcols and not envs:
                groups = {(): []}
            exp = []
            for key, es in groups.items():
                exp.append(tuple((es[0][c] if k == 'c' else len(es) if c is None else sum(1 for e in es if e[c] is not None)) for k, c in items))
            res.evals += 1
            res.tally.add('groups', len(groups))
            res.tally.add('rows_grouped', len(envs))
            if len(envs) > len(groups):
                res.sig('g', tuple(c.type for c in gcols), tuple('%s%s' % (k, c.type if c else '') for k, c in items), join, wh is not None, min(len(groups), 12))
            d = diff(bag(exp), bag(rows_cur(ev)))
            return d and 'aggregate query returned the wrong rows: ' + d
        s.q(render(toks), cb, target=True)
    s.close()
    s.run()
    if idx < 2:
        res.samples.append({'statement': [x for x in s.text if x.startswith('SEL')][-1][:500]})
    return res
