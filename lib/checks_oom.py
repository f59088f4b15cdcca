"""P19: allocations that fail (src/oomdrv.c, src/oom.h)"""
import random, re, subprocess
from vf import Result, derive
from sess import Sess
from sqlm import Pool, render, rand_cond, cond_toks, mktable, create_toks, rand_row, insert_toks
from checks_sql2 import Model, gen_step
import checks_sql2 as S2

_where = {}


def where(exe, site):
    """function that contains the call"""
    if (exe, site) not in _where:
        a = int(site, 16) - 1 if site not in ('(nil)', '0') else 0
        o = subprocess.run(['addr2line', '-f', '-e', exe, hex(a)], capture_output=True, text=True).stdout.split('\n')
        _where[(exe, site)] = o[0] if o else '?'
    return _where[(exe, site)]


def wide_select(rng, m, pool):
    """queries with everything in them"""
    names = sorted(m.t)
    k = rng.choice([1, 2, 2, 3])
    tabs = [m.t[n] for n in rng.sample(names, min(k, len(names)))]
    n = 1
    for t in tabs:
        n *= max(1, len(m.rows[t.name]))
    if n > 3000:
        tabs = tabs[:1]
    cols = [c for t in tabs for c in t.cols]
    if len(cols) > 40:
        tabs, cols = tabs[:1], tabs[0].cols
    al = {t.name: rng.choice([None, None, 'zz%d' % i]) for i, t in enumerate(tabs)}
    tref = lambda t: [t.name] + (['AS', al[t.name]] if al[t.name] else [])
    own = {c.name: t for t in tabs for c in t.cols}

    def ref(c):
        t = own[c.name]
        return c.name if rng.random() < 0.5 else '%s.%s' % (al[t.name] or t.name, c.name)
    kind = rng.choice(['star', 'cols', 'cols', 'count', 'group', 'group'])
    g = rng.sample(cols, min(len(cols), rng.choice([1, 1, 2])))
    tail = []
    if kind == 'star':
        item = ['*']
    elif kind == 'cols':
        item = []
        for c in [rng.choice(cols) for _ in range(rng.choice([1, 2, 5]))]:
            item += ([','] if item else []) + [ref(c)]
    elif kind == 'count':
        item = ['COUNT(', '*', ')'] + ([',', 'COUNT(', ref(rng.choice(cols)), ')'] if rng.random() < 0.5 else [])
    else:
        item, tail = ['COUNT(', '*', ')'], ['GROUP', 'BY']
        for i, c in enumerate(g):
            item += [',', ref(c)]
            tail += ([','] if i else []) + [ref(c)]
    q = ['SELECT'] + item + ['FROM']
    if len(tabs) > 1 and rng.random() < 0.6:
        q += tref(tabs[0])
        for t in tabs[1:]:
            q += ['JOIN'] + tref(t) + ['ON'] + cond_toks(rng, rand_cond(rng, t.cols, pool, rng.choice([0, 1]), features=('cmp',)), ref)
    else:
        for i, t in enumerate(tabs):
            q += ([','] if i else []) + tref(t)
    if rng.random() < 0.7:
        q += ['WHERE'] + cond_toks(rng, rand_cond(rng, cols, pool, rng.choice([0, 1, 2])), ref)
    return render(q + tail)


def corner(rng, m, pool):
    """constructs the other generators leave out, whether the engine accepts them or not"""
    t = m.t[rng.choice(sorted(m.t))]
    o = m.t[rng.choice(sorted(m.t))]
    c, d = rng.choice(t.cols), rng.choice(t.cols)
    n, a, b, lit = t.name, c.name, d.name, pool.lit(c)[0]
    e = rng.choice(['1 + 2 * 3', '- 5', '-(2 - 4) / 2', '7 % 3', '- - 1', '1.5 * 2.0 - .5', '(1)', '9223372036854775807 + 1', '1 / 0', '%s + 1' % a, '-%s' % a, '%s * 2 - %s' % (a, b)])
    w = rng.choice([a + ' = ' + e, e + ' < ' + a, '%s IS NULL OR %s IS NOT NULL' % (a, b), "%s LIKE 'x%%'" % a, "%s NOT LIKE '_'" % a, '%s IN (%s, %s)' % (a, lit, lit), '%s NOT IN (%s)' % (a, lit),
                    'NOT %s = %s' % (a, lit), '%s BETWEEN 1 AND 2' % a, '%s = %s.%s' % (a, n, b), 'EXISTS (SELECT * FROM %s)' % n, '(%s = %s) XOR (%s <> %s)' % (a, lit, b, b), 'NULL IS NULL', '1'])
    return rng.choice([
        'SELECT %s FROM %s WHERE %s;' % (rng.choice(['*', a, '%s, %s' % (a, b), e, '%s AS k' % a]), n, w),
        'SELECT %s, %s FROM %s;' % (e, a, n), 'SELECT %s;' % e,
        'SELECT DISTINCT %s FROM %s;' % (a, n), 'SELECT %s FROM %s ORDER BY %s %s;' % (a, n, b, rng.choice(['', 'ASC', 'DESC', ', ' + a])),
        'SELECT %s FROM %s WHERE %s LIMIT %s;' % (a, n, w, rng.choice(['1', '2, 3'])),
        'SELECT COUNT(*), %s FROM %s GROUP BY %s HAVING %s;' % (a, n, a, rng.choice(['COUNT(*) > 1', w])), 'SELECT COUNT(%s), COUNT(%s) FROM %s WHERE %s;' % (a, b, n, w),
        'SELECT %s.%s, zz.%s FROM %s, %s AS zz WHERE %s;' % (n, a, o.cols[0].name, n, o.name, w), 'SELECT * FROM %s zz %s JOIN %s ON zz.%s = %s;' % (n, rng.choice(['', 'INNER', 'LEFT', 'CROSS', 'RIGHT OUTER']), o.name, a, o.cols[0].name),
        'SELECT * FROM (SELECT %s FROM %s) AS q;' % (a, n), 'SELECT * FROM %s WHERE %s IN (SELECT %s FROM %s);' % (n, a, b, n),
        'DELETE FROM %s WHERE %s;' % (n, w), 'DELETE FROM %s WHERE %s ORDER BY %s LIMIT 1;' % (n, w, a), 'UPDATE %s SET %s = %s WHERE %s;' % (n, a, lit, w), 'UPDATE %s SET %s = %s, %s = %s;' % (n, a, e, b, lit),
        'INSERT INTO %s (%s) VALUES (%s), (%s);' % (n, a, e, lit), 'INSERT INTO %s VALUES (%s);' % (n, ', '.join(rng.choice([e, pool.lit(x)[0], 'NULL']) for x in t.cols)),
        'INSERT INTO %s (%s) VALUES (%s);' % (n, ', '.join(x.name for x in t.cols), ', '.join(pool.lit(x)[0] for x in t.cols)), 'INSERT INTO %s VALUES (%s, -(%s));' % (n, e, e),
        'CREATE TABLE %s (ka INT %s, kb VARCHAR(%d), kc DOUBLE, %s);' % (rng.choice(['N1', 'N2', n]), rng.choice(['', 'NOT NULL', 'PRIMARY KEY', 'UNIQUE AUTO_INCREMENT']), rng.choice([1, 20, 255]), rng.choice(['INDEX (ka)', 'PRIMARY KEY (ka, kb)', 'UNIQUE (kb)', 'INDEX (ka, kb), KEY (kc)', 'kd DATE, ke DATETIME, kf TINYINT'])),
        'CREATE TABLE IF NOT EXISTS %s (%s);' % (n, ', '.join('k%d INT' % i for i in range(rng.choice([1, 9, 40])))),
    ])


def unit_scan(exe, seed):
    """allocations of the scanner"""
    res = Result()
    s = Sess(exe, res, 'P19/scan')
    s.open()
    s.q('CREATE TABLE a (x INT, s VARCHAR(20));')

    def cb(ev, sql):
        if 'scan' not in ev:
            return None
        res.evals += ev['allocs']
        res.tally.add('scanner_allocations_failed', ev['allocs'])
        for n, rc, err in ev['scan']:
            err = bytes.fromhex(err).decode('latin1')
            m = re.search(r'out of dynamic memory in (\w+)', err)
            key = 'scanner allocation, %s' % (m.group(1) if m else 'unknown place')
            res.viol.append((key, '%s: the process ends with %d (allocation %d of the scanner, statement %r)' % (key, rc, n, sql), {'statement': sql, 'allocation': n}))
    for sql in ('SELECT s FROM a;', "INSERT INTO a VALUES (1, 'x');", 'SELECT'):
        s.raw('F ' + sql, sql, lambda ev, sql=sql: cb(ev, sql), True)
    s.close()
    s.run(cpu=100)
    return res


def unit_oom(exe, seed, idx, nstmt, per):
    res = Result()
    rng = random.Random(derive(seed, 'P19', idx))
    s = Sess(exe, res, 'P19/%d' % idx)
    opens = lambda ev: None if 'allocs' not in ev else ev['bad'] and 'database_open without memory: %s' % ev['bad'] or res.sig('open', ev['allocs'])
    s.raw('D 1', 'database_open', opens, True)
    s.open()
    pool = Pool(rng, rng.choice([3, 6, 15]))
    m = Model()
    # contents
    for n in ('Ta', 'tc', 'X1'):
        t = mktable(rng, n, taken=[c.name for x in m.t.values() for c in x.cols] + list(m.t), ncols=rng.choice([1, 2, 3, 5]))
        m.t[n] = t
        m.rows[n] = []
        s.q(render(create_toks(t)))
        for _ in range(rng.choice([0, 1, 1, 2])):
            rows = [rand_row(rng, t, pool) for _ in range(rng.choice([1, 4, 12, 60]))]
            m.rows[n] += [tuple(x[1] for x in r) for r in rows]
            s.q(render(insert_toks(rng, t, [[x[0] for x in r] for r in rows])))
    for i in range(nstmt):
        r = rng.random()
        if r < 0.25:
            sql, exp = wide_select(rng, m, pool), None
        elif r < 0.5:
            sql, exp = corner(rng, m, pool), None
        elif r < 0.65:
            ta, tb = rng.sample(sorted(m.t), 2)
            ta, tb = m.t[ta], m.t[tb]
            nm = [c.name for c in ta.cols + tb.cols] + [ta.name, tb.name] * 3
            while True:
                kind, sql = S2.hostile(rng, ta, tb, pool, nm)
                if kind != 'big' and len(sql) < 3000:
                    break
            exp = None
        else:
            sql, exp = gen_step(rng, m, pool, i)
            if len(sql) > 20000 and exp and exp[0] != 'err':
                s.q(sql)
                continue

        def cb(ev, sql=sql):
            if 'allocs' not in ev or ev['allocs'] < 0:
                return None
            res.evals += ev['tried']
            res.tally.add('statements', 1)
            res.tally.add('allocations_failed', ev['tried'])
            res.tally.add('of_these_tolerated', ev['tolerated'])
            kind = (sql if isinstance(sql, str) else sql.decode('latin1')).split(None, 1)[:1]
            for site, st in ev['seen']:
                res.sig(kind, where(exe, site), site, st)
            res.tally.add('of_these_reported_as_errors', sum(1 for x in ev['seen'] if x[1] == 2))
            for b in ev['bad']:
                w = where(exe, b['site'])
                if 'died' in b:
                    err = bytes.fromhex(b['err']).decode('latin1')
                    from vf import crash_summary, Run
                    r = Run()
                    r.timeout, r.stderr, r.rc = b['died'] == -14, err, b['died']
                    return 'allocation failure in %s ends the process: %s (allocation %d%s)' % (w, crash_summary(r), b['k'], ', persistent' if b['p'] else '')
                return 'allocation failure in %s: %s (allocation %d%s, %d bytes)' % (w, b['what'], b['k'], ', persistent' if b['p'] else '', b['lost'])
        b = sql if isinstance(sql, bytes) else sql.encode('latin1')
        s.raw('K 0 %d %d %s' % (per, rng.randrange(1 << 30), b.hex()), sql, cb, True)
    s.close(target=True)
    s.run(cpu=600)
    if idx < 2:
        res.samples.append({'statement with failing allocations': s.text[-3][:300]})
    return res
