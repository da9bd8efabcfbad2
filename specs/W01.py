"""W01: every accepted task is run once; groups run in order and serially; destruction loses nothing."""
from poolutil import *
TAGS = {'J', 'race', 'mutex', 'run', 'enq', 'end'}
def tasks(env): return pool_tasks(TAGS)
