"""Replaces watchfiles.awatch by a generator the scenarios control."""
import watchfiles
import watchfiles.main

CURRENT = []
_real = watchfiles.awatch


def awatch(*paths, **kw):
    if not CURRENT:
        return _real(*paths, **kw)
    return CURRENT[-1](paths, kw)


watchfiles.awatch = awatch
watchfiles.main.awatch = awatch
