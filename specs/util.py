import sys, os
from env import Task, Env
from core import *
from models import *
import z3

def attempt(cx, fn):
    """run fn to its end: ('ok', value) | ('abort', line) | ('throw', what)"""
    nf, nl = len(cx.frames), len(cx.loopstack)
    try: return ('ok', fn())
    except Abort as e: k = ('abort', e.line)
    except Throw as e: k = ('throw', e.what)
    del cx.frames[nf:]; del cx.loopstack[nl:]
    return k

def fn_id(prog, q, pred=None, n=None):
    c = prog.find(q, pred)
    if not c: raise Unsupported('function %s not found in the extracted code' % q)
    return c[0]
def call(cx, fid, obj, *args):
    """call the extracted function from outside"""
    return cx.call_body(fid, obj, list(args))
def rectype(prog, name):
    for i in range(len(prog.types)):
        if prog.types[i]['k'] == 'rec' and (prog.tname(i) == name or prog.types[i]['q'] == name) and i in prog.records: return i
    raise Unsupported('type %s not found' % name)
def ptype(prog, fid, i):
    """pointee / referee of parameter i"""
    t = prog.funcs[fid]['pt'][i]; T = prog.types[t]
    return T['e'] if T['k'] in ('ptr', 'ref') else t
def fresh_frame(cx):
    """a pseudo frame so that destructors/temporaries of directly called code have a home"""
    f = Frame(None, 'contract'); cx.frames.append(f); return f

def itpos(cx, v):
    """position of a loop variable: an index, or an iterator into the container"""
    return cx.ix(v.ref.path[-1][1] if isinstance(v, Ptr) else v)
