"""L01: writers exclude everyone (both lock variants, upgrades included); the in-use query."""
from lockutil import *

TAGS = {'J', 'race', 'use', 'mutex'}
def tasks(env):
    out = []
    for cls in (BASE, RF):
        n = cls.split('::')[1]
        out.append(Task(n + ' ctor', lambda env, c=cls: ctor_task(env, c, TAGS)))
        for m in METHODS: out.append(Task('%s %s' % (n, m), lambda env, c=cls, m=m: run_method(env, c, m, TAGS)))
    return out
REPLAY_SRC = ['REPO/aslam_cv_common/src/reader-writer-lock.cc', 'REPO/aslam_cv_common/src/reader-first-reader-writer-lock.cc']
REPLAY_FLAGS = []
