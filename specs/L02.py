"""L02: upgrades."""
from lockutil import *
TAGS = {'J', 'upg', 'race', 'mutex'}
def tasks(env):
    return [Task('%s %s' % (c.split('::')[1], m), lambda env, c=c, m=m: run_method(env, c, m, TAGS)) for c in (BASE, RF) for m in METHODS if m != 'isInUse']
REPLAY_SRC = ['REPO/aslam_cv_common/src/reader-writer-lock.cc', 'REPO/aslam_cv_common/src/reader-first-reader-writer-lock.cc']
REPLAY_FLAGS = []
