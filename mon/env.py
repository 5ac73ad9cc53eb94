"""Locates the code under test and the Unicode databases used by the monitors."""
import logging
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# The tree under test always comes first.
sys.path[:] = [REPO] + [p for p in sys.path if p != REPO]

# The library logs errors for every rejected input. Handlers on the root logger keep
# logging.lastResort quiet; levels are left alone.
logging.getLogger().addHandler(logging.NullHandler())

import lgr  # noqa: E402

_real = os.path.realpath(lgr.__file__)
if not _real.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit('harness error: lgr imported from %s instead of %s' % (_real, REPO))

_UNIDB = None


def unidb():
    """The real ICU-backed Unicode database."""
    global _UNIDB
    if _UNIDB is None:
        from munidata import UnicodeDataVersionManager
        manager = UnicodeDataVersionManager()
        libdir = '/usr/lib/x86_64-linux-gnu'
        for v in ('74', '76', '72', '70'):
            uc = '%s/libicuuc.so.%s' % (libdir, v)
            i18n = '%s/libicui18n.so.%s' % (libdir, v)
            if os.path.exists(uc):
                _UNIDB = manager.register(None, uc, i18n, v)
                break
        else:
            raise SystemExit('harness error: ICU not found')
    return _UNIDB


_IDNADB = {}


def idnadb(version='6.3.0'):
    if version not in _IDNADB:
        from munidata.database import IDNADatabase
        _IDNADB[version] = IDNADatabase(version)
    return _IDNADB[version]
