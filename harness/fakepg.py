"""Stand-in for psycopg2 over an in-memory SQL database, for the programs
that read the positioner moves database. The queries are executed, not
recognised: any query with the same meaning gives the same rows."""
import datetime, re, sqlite3

TIMES = {'time_recorded'}
BOOLS = {'ctrl_enabled', 'device_classified_nonfunctional', 'fiber_intact', 'classified_as_retracted'}
EPOCH = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)


def stamp(t):
    return (EPOCH + datetime.timedelta(seconds=t)).strftime('%Y-%m-%d %H:%M:%S')


def quote(p):
    if isinstance(p, (list, tuple)):
        return '(' + ', '.join(quote(x) for x in p) + ')'
    if isinstance(p, str):
        return "'" + p.replace("'", "''") + "'"
    if isinstance(p, (datetime.datetime, datetime.date)):
        return "'" + str(p) + "'"
    return 'NULL' if p is None else str(p)


def translate(sql):
    sql = re.sub(r"\b(?:date|timestamp|timestamptz)\s*'(\d{4})-(\d+)-(\d+)'", lambda m: "'%s-%02d-%02d 00:00:00'" % (m[1], int(m[2]), int(m[3])), sql, flags=re.I)
    sql = re.sub(r"'(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)(?:\.0+)?(?:[+-]00:?(?:00)?)?'", r"'\1'", sql)
    sql = re.sub(r'::\s*\w+', '', sql)
    sql = re.sub(r"(\w+)\s*!~\s*('[^']*')", r'NOT matches(\1, \2)', sql)
    sql = re.sub(r"(\w+)\s*~\s*('[^']*')", r'matches(\1, \2)', sql)
    return sql


class Cursor:
    def __init__(self, db, aware):
        self.db, self.aware, self.description, self.rows = db, aware, None, []

    def execute(self, sql, params=None):
        if params is not None:
            if isinstance(params, dict):
                sql = sql % {k: quote(v) for k, v in params.items()}
            else:
                sql = sql % tuple(quote(p) for p in params)
        cur = self.db.execute(translate(sql))

        class Col(tuple):
            name = property(lambda s: s[0])
        self.description = [Col((d[0], None)) for d in cur.description]
        names = [d[0] for d in cur.description]
        conv = [self.time if n in TIMES else self.boolean if n in BOOLS else None for n in names]
        self.rows = [tuple(f(v) if f else v for f, v in zip(conv, r)) for r in cur.fetchall()]

    def time(self, v):
        if v is None:
            return v
        d = datetime.datetime.strptime(v, '%Y-%m-%d %H:%M:%S')
        return d.replace(tzinfo=datetime.timezone.utc) if self.aware else d

    def boolean(self, v):
        return None if v is None else bool(v)

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    arraysize = 1

    def fetchmany(self, size=None):
        n = self.arraysize if size is None else size
        r, self.rows = self.rows[:n], self.rows[n:]
        return r

    @property
    def rowcount(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Connection:
    def __init__(self, db, aware):
        self.db, self.aware = db, aware

    def cursor(self, *a, **k):
        return Cursor(self.db, self.aware)

    def close(self):
        pass

    def commit(self):
        pass


class Module:
    """what `import psycopg2` gives"""
    def __init__(self, tables, aware=True):
        db = sqlite3.connect(':memory:')
        db.execute("attach ':memory:' as posmovedb")
        db.create_function('matches', 2, lambda s, p: re.search(p, s) is not None)
        db.execute('pragma case_sensitive_like=on')
        db.execute('create table pg_class (relname, relkind)')
        for name, rows in tables.items():
            db.execute('insert into pg_class values (?, ?)', (name, 'r'))
            if rows:
                cols = list(rows[0])
                db.execute('create table posmovedb.%s (%s)' % (name, ', '.join(cols)))
                db.executemany('insert into posmovedb.%s values (%s)' % (name, ', '.join('?' * len(cols))), [[r[c] for c in cols] for r in rows])
        for name, kind in (('pg_type', 'r'), ('positioner_moves_p3_pkey', 'i'), ('telemetry', 'r'), ('positioner_moves_p1_old', 'r'), ('positioner_moves_p42', 'r')):
            db.execute('insert into pg_class values (?, ?)', (name, kind))
        self.db, self.aware = db, aware
        self.__name__ = 'psycopg2'

    def connect(self, *a, **k):
        return Connection(self.db, self.aware)
