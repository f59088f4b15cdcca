"""P14: threads (src/thrdrv.c under ThreadSanitizer and AddressSanitizer)"""
import hashlib, random
import vf, sqlm
from vf import Result, derive, died, crash_summary, run_driver
from sess import Sess
from checks_sql import *
from checks_sql2 import Model, gen_step, judge, hostile, colcheck
from checks_sql2 import *


class Script:
    def __init__(self):
        self.lines, self.cbs, self.text = [], {}, []

    def phase(self, l, cb=None):
        self.lines.append(l)
        self.text.append(l)
        if cb:
            self.cbs[len(self.lines)] = cb

    def cmd(self, t, line, text, cb=None):
        self.lines.append('@%d %s' % (t, line))
        self.text.append('[thread %d] %s' % (t, text))
        if cb:
            self.cbs[len(self.lines)] = cb

    def q(self, t, db, sql, cb, cmd='Q'):
        b = sql if isinstance(sql, bytes) else sql.encode('latin1')
        self.cmd(t, '%s %d %s' % (cmd, db, b.hex()), b.decode('latin1'), cb)


def dump_all(s, t, db, m, res, what):
    for n in sorted(m.t):
        rows, tab = bag(m.rows[n]), m.t[n]

        def st(ev, rows=rows, tab=tab):
            if 'missing' in ev:
                return what + ': table disappeared'
            for z in colcheck(tab, ev):
                return what + ': ' + z
            d = diff(rows, bag(sqlm.rows_of(ev)))
            return d and what + ': state is not the effect of the statements: ' + d
        s.cmd(t, 'T %d %s' % (db, n), '-- dump %d %s' % (db, n), st)


def unit_threads(exe, seed, idx, nstmt):
    res = Result()
    rng = random.Random(derive(seed, 'P14', idx))
    s = Script()
    nt = rng.choice([2, 2, 3, 4, 8])
    shared = 12

    def stcb(exp, kind):
        def cb(ev):
            res.evals += 1
            msg = judge(ev, exp)
            if not msg:
                res.tally.add('statements_' + kind)
            return msg and '%s: %s' % (kind, msg)
        return cb

    def anycb(ev):
        res.evals += 1
        if ev['st'] not in (0, 1, 2):
            return 'hostile text: no outcome'
        if ev['st'] == ERR and not ev.get('err'):
            return 'hostile text: error without a message'
        res.tally.add('statements_hostile')
    

    # 1. every thread on databases of its own
    s.phase('#free')
    same = rng.random() < 0.5
    for t in range(nt):
        r = random.Random(derive(seed, 'P14t', idx, 0 if same else t))
        s.cmd(t, 'O %d' % t, '-- open %d' % t, lambda ev: None if ev['open'] == 0 else 'database cannot be opened')
        m, pool = Model(), Pool(r, 5)
        for i in range(nstmt):
            if r.random() < 0.12 and m.t:
                tt = m.t[r.choice(sorted(m.t))]
                txt = hostile(r, tt, tt, pool, list(m.t) + [c.name for c in tt.cols])
                txt = txt[1] if isinstance(txt, tuple) else txt
                b = txt if isinstance(txt, bytes) else txt.encode('latin1')
                # only texts that can't change anything: the model doesn't know what they mean
                if len(b) < 3000 and b'\0' not in b:
                    b = b'SELECT ' + b if not b.lstrip().upper().startswith(b'SELECT') else b
                    s.q(t, t, b, anycb)
                continue
            sql, exp = gen_step(r, m, pool, i)
            s.q(t, t, sql, stcb(exp, 'own_database'))
        dump_all(s, t, t, m, res, 'database of thread %d' % t)
        s.cmd(t, 'C %d' % t, '-- close %d' % t)
    # 2. one database, used by the threads in turns
    s.phase('#turns')
    m, pool = Model(), Pool(rng, 5)
    s.cmd(0, 'O %d' % shared, '-- open %d' % shared)
    for i in range(nstmt):
        t = rng.randrange(nt)
        sql, exp = gen_step(rng, m, pool, i)
        s.q(t, shared, sql, stcb(exp, 'shared_in_turns'))
    dump_all(s, rng.randrange(nt), shared, m, res, 'shared database')
    # 3. queries only, all at once
    s.phase('#free')
    for t in range(nt):
        for i in range(nstmt // 2):
            for _ in range(20):
                k = {n: list(v) for n, v in m.rows.items()}
                sub = Model()
                sub.t, sub.rows = dict(m.t), k
                sql, exp = gen_step(rng, sub, pool, i)
                if exp[0] == 'r' or exp[0] == 'err':
                    s.q(t, shared, sql, stcb(exp, 'shared_queries'))
                    break
    dump_all(s, 0, shared, m, res, 'shared database after concurrent queries')
    # 4. the locks exclude
    tab = sorted(m.t)[0] if m.t else None
    if tab:
        def lk(ev):
            res.evals += 1
            res.tally.add('lock_acquisitions', ev['want'])
            if ev['locks'] or ev['db'] + ev['tab'] != ev['want']:
                return 'locks: database_lock/table_lock failed or let two threads in'
        s.phase('#locks %d %s %d' % (shared, tab, 300), lk)
    def rl(ev):
        res.evals += 1
        res.tally.add('statements_followed_by_a_lock')
        if not ev['ran']:
            return 'locks: a statement did not return within 10 s'
        if ev['released'] != 1:
            return 'locks: a statement kept the database lock'
    for sql in (['CREATE TABLE Rel%d (y%d INT);' % (nt, nt), 'CREATE TABLE Rel%d (y INT);' % nt, 'CREATE TABLE IF NOT EXISTS Rel%d (y INT);' % nt,
                 'CREATE TABLE IF NOT EXISTS Rel%db (x%d INT);' % (nt, nt), 'CREATE TABLE Rel9 (y INT, y INT);', 'CREATE TABLE Rel9 (y VARCHAR(0));',
                 'INSERT INTO Rel%d VALUES (1);' % nt, "INSERT INTO Rel%d VALUES ('a');" % nt, 'SELECT y%d FROM Rel%d;' % (nt, nt), 'CREATE TABLE ;',
                 'UPDATE Rel%d SET y%d = 2;' % (nt, nt), 'DELETE FROM Rel%d;' % nt, 'SELECT nope FROM Rel%d;' % nt]):
        s.phase('#released %d %s' % (shared, sql.encode().hex()), rl)
    # 5. creating a table respects them
    def cr(ev):
        res.evals += 1
        res.tally.add('creates_against_lock')
        if ev['early']:
            return 'locks: a table was created while another thread held the database lock'
        if ev['create'] != 1:
            return 'locks: CREATE TABLE failed after the lock was released'
    s.phase('#create %d %s' % (shared, b'CREATE TABLE LastOne (z9 INT);'.hex()), cr)

    def wt(ev):
        res.evals += 1
        res.tally.add('looks_at_the_tables_under_the_lock', ev['watch'])
        res.tally.add('tables_appeared_between_looks', ev['seen'])
        if ev['changed']:
            return 'locks: the tables changed while a thread held the database lock'
        if ev['ok'] != ev['want']:
            return 'locks: CREATE TABLE failed while another thread used the database lock'
    s.phase('#watch %d Wt %d' % (shared, 24), wt)
    s.phase('#turns')
    s.q(nt - 1, shared, 'INSERT INTO LastOne VALUES (1);', stcb(('x', 1), 'shared_in_turns'))
    s.cmd(0, 'C %d' % shared, '-- close %d' % shared)

    r = run_driver(exe, s.lines, cpu=300, wall=300, args=[str(nt), str(derive(seed, 'j', idx) % 100000)])
    rep = {'tag': 'P14/%d' % idx, 'threads': nt, 'script': s.lines, 'text': s.text[-40:]}
    order = []
    for ev in r.events:
        if 'a' in ev:
            order.append((ev['a'], ev['t']))
            cur = ev
        if 'done' in ev:
            order.append((ev['b'], -1 - cur['t']))
            continue
        cb = s.cbs.get(ev['n'])
        if cb:
            msg = cb(ev)
            if msg:
                res.violation(msg.split(':')[0][:60], '%s  [%s]' % (msg, s.text[ev['n'] - 1][:500]), rep)
                return res
    if died(r):
        c = crash_summary(r)
        res.violation('died: ' + c, 'process ended (%s) with %d threads; %s' % (c, nt, r.stderr[:1500]), rep)
        return res
    order.sort()
    # commands of different threads that were under way at the same time
    inside, overlaps = set(), 0
    for _, x in order:
        if x >= 0:
            overlaps += bool(inside)
            inside.add(x)
        else:
            inside.discard(-1 - x)
    res.tally.add('commands_overlapping_another_thread', overlaps)
    res.sig(nt, hashlib.md5(repr([x for _, x in order]).encode()).digest())
    if idx < 2:
        res.samples.append('%d threads, %d commands, %d of them overlapping another thread\'s' % (nt, len(order) // 2, overlaps))
    return res
