"""A session: a script of commands for the SQL driver plus one oracle per command, judged offline over the event log."""
import os
from vf import run_driver, crash_summary, died, Result, derive
import sqlm


# one session in three runs in a zone that is not UTC (rules that hold for all years: dates are stored in standard time)
ZONES = ['UTC'] * 4 + ['EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3']


class Sess:
    def __init__(self, exe, res, tag, env=None):
        if env is None:
            env = {'TZ': ZONES[derive('zone', tag) % len(ZONES)]}
        self.exe, self.res, self.tag, self.env = exe, res, tag, env
        self.lines, self.cbs = [], []
        self.tabs = {}             # (db, name) -> last dump event
        self.text = []

    def raw(self, line, text, cb=None, target=False):
        self.lines.append(line)
        self.text.append(text)
        self.cbs.append((cb, target))

    def open(self, db=0):
        self.raw('O %d' % db, '-- open %d' % db)

    def close(self, db=0, target=False):
        self.raw('C %d' % db, '-- close %d' % db, None, target)

    def q(self, sql, cb=None, db=0, target=False, cmd='Q'):
        b = sql if isinstance(sql, bytes) else sql.encode('latin1')
        self.raw('%s %d %s' % (cmd, db, b.hex()), b.decode('latin1'), cb, target)

    def dump(self, name, db=0, cb=None):
        """cb(previous dump, new dump)"""
        def f(ev):
            old = self.tabs.get((db, name))
            self.tabs[(db, name)] = ev
            if cb and 'missing' not in ev and old is not None and 'missing' not in old:
                return cb(old, ev)
            if cb and ('missing' in ev) and old is not None and 'missing' not in old:
                return 'table %s disappeared' % name
        self.raw('T %d %s' % (db, name), '-- dump %d %s' % (db, name), f)

    def rows(self, name, db=0):
        ev = self.tabs.get((db, name))
        return None if ev is None or 'missing' in ev else sqlm.rows_of(ev)

    def violation(self, key, msg, upto):
        rep = {'tag': self.tag, 'script': self.lines[:upto + 1] if upto < 400 else self.lines[:upto + 1][-400:],
               'text': [t[:2000] for t in self.text[:upto + 1][-60:]], 'env': self.env or {}}
        self.res.violation(key, msg, rep)

    def run(self, crash_is_violation=False, cpu=60):
        r = run_driver(self.exe, self.lines, env=self.env, cpu=cpu)
        self.r = r
        self.res.tally.add('statements', sum(1 for e in r.events if 'st' in e))
        for i, ev in enumerate(r.events):
            cb, target = self.cbs[i]
            if cb:
                msg = cb(ev)
                if msg:
                    key = msg.split(':')[0][:60]
                    self.violation(key, '%s  [statement: %s]' % (msg, self.text[i][:600]), i)
                    return False
        if died(r):
            i = min(len(r.events), len(self.lines) - 1)
            if r.done:
                i = len(self.lines) - 1
            cb, target = self.cbs[i]
            if target or crash_is_violation:
                self.violation('died: ' + crash_summary(r), 'engine terminated (%s) while running [%s]' % (
                    crash_summary(r), self.text[i][:600]), i)
                return False
            self.res.tally.add('sessions_cut_short')
        return True
