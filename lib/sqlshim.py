"""A stand-in for MySQL and PostgreSQL connections: runs the stores' statements on SQLite.

Only the differences in syntax are translated (parameter markers, storage engine, key prefix lengths);
the servers themselves are not available here.
"""
import re
import sqlite3
import sys
import types


class Cursor(object):
    def __init__(self, conn):
        self.cur = conn.cursor()

    def execute(self, sql, args=()):
        sql = re.sub(r'\)\s*ENGINE=InnoDB', ')', sql).replace('server_url(255)', 'server_url').replace('%s', '?').replace('%%', '%')
        return self.cur.execute(sql, tuple(args))

    def fetchall(self):
        return self.cur.fetchall()

    def fetchone(self):
        return self.cur.fetchone()

    def __iter__(self):
        return iter(self.cur)

    @property
    def rowcount(self):
        return self.cur.rowcount

    def close(self):
        self.cur.close()


class Connection(object):
    IntegrityError = sqlite3.IntegrityError
    OperationalError = sqlite3.OperationalError
    ProgrammingError = sqlite3.ProgrammingError
    DatabaseError = sqlite3.DatabaseError
    Error = sqlite3.Error

    def __init__(self, conn):
        self.conn = conn

    def cursor(self):
        return Cursor(self.conn)

    def commit(self):
        self.conn.commit()

    def rollback(self):
        self.conn.rollback()

    def close(self):
        self.conn.close()


def install():
    if 'psycopg2' not in sys.modules:
        try:
            import psycopg2  # noqa: F401
        except ImportError:
            m = types.ModuleType('psycopg2')
            m.Binary = bytes
            sys.modules['psycopg2'] = m
