"""Development only: reuse of the extraction of unchanged units (HRM_CACHE=dir).
No registered check uses it."""
import glob
import hashlib
import os
import pickle
import re
import threading

from hrmsa import load

_one = load._extract


def cached(hrmx, tmp, name, text, inc, roots):
    cache = os.environ['HRM_CACHE']
    h = hashlib.sha256(text.encode())
    fs = [os.path.join(load.REPO, 'src', x) for x in re.findall(r'#include "([^"/][^"]*\.cpp)"', text)] + \
        re.findall(r'#include "(/[^"]*)"', text) + \
        sorted(glob.glob(load.REPO + '/**/*.h', recursive=True) + glob.glob(load.VERIF + '/spec/*.h')) + [hrmx]
    for f in fs:
        h.update((os.path.relpath(f, load.REPO) if f.startswith(load.REPO) else f).encode())
        h.update(open(f, 'rb').read())
    key = os.path.join(cache, h.hexdigest())
    if os.path.exists(key):
        return pickle.load(open(key, 'rb'))
    d = _one(hrmx, tmp, name, text, inc, roots)
    t = '%s.%d.%d' % (key, os.getpid(), threading.get_ident())
    with open(t, 'wb') as f:
        pickle.dump(d, f)
    os.rename(t, key)
    return d


def install():
    if os.environ.get('HRM_CACHE'):
        load._extract = cached
