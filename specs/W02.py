"""W02: waiting, counters and wake-ups."""
from poolutil import *
TAGS = {'J', 'race', 'mutex', 'wake', 'wait', 'enq'}
def tasks(env): return pool_tasks(TAGS)
