"""I02: equality, order, validity, copies and hashes of identifiers."""
from idutil import *

IDS = ['aslam::HashId', 'aslam::FrameId']
def fns(p, t, op):
    """overloads of op applicable to two objects of type t"""
    if t == 'aslam::HashId': return p.find('aslam::HashId::' + op)
    return p.find('aslam::UniqueId::' + op, lambda P, f: 'FrameId' in f['n'])
def t_eq(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    for t in IDS:
        for f in fns(p, t, 'operator=='):
            def run(cx, f=f, t=t):
                a, b = new_id(cx, 'a', t), new_id(cx, 'b', t); A, B = bytes_of(cx, a), bytes_of(cx, b)
                st, v = attempt(cx, lambda: call(cx, f, a, b))
                cx.oblige('== returns', st == 'ok'); cx.oblige('== is equality of all 128 bits', cx.zb(v) == cx.zb(same(A, B)))
                cx.oblige('operands unchanged', AND(same(bytes_of(cx, a), A), same(bytes_of(cx, b), B))); cx.cover('end')
            cx.explore(p.funcs[f]['n'] + '(%s)' % p.tname(p.funcs[f]['pt'][0]), run)
        for f in fns(p, t, 'operator!='):
            def run(cx, f=f, t=t):
                a, b = new_id(cx, 'a', t), new_id(cx, 'b', t); A, B = bytes_of(cx, a), bytes_of(cx, b)
                st, v = attempt(cx, lambda: call(cx, f, a, b))
                cx.oblige('!= returns', st == 'ok'); cx.oblige('!= is inequality of the 128 bits', cx.zb(v) == z3.Not(cx.zb(same(A, B))))
            cx.explore(p.funcs[f]['n'] + '(%s)' % p.tname(p.funcs[f]['pt'][0]), run)
    return cx
def t_order(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    for t in IDS:
        for f in fns(p, t, 'operator<'):
            eq = fns(p, t, 'operator==')[0]
            def run(cx, f=f, t=t, eq=eq):
                a, b, c = [new_id(cx, n, t) for n in 'abc']
                A, B = bytes_of(cx, a), bytes_of(cx, b)
                L = lambda x, y: cx.zb(call(cx, f, x, y))
                ab, ba, bc, ac, aa = L(a, b), L(b, a), L(b, c), L(a, c), L(a, a)
                e = cx.zb(same(A, B))
                cx.oblige('exactly one of less, equal, greater', z3.PbEq([(ab, 1), (ba, 1), (e, 1)], 1))
                cx.oblige('less-than is irreflexive', z3.Not(aa))
                cx.oblige('less-than is transitive', z3.Implies(z3.And(ab, bc), ac))
                if t == 'aslam::HashId':
                    for g in p.find('aslam::HashId::operator>'):
                        cx.oblige('greater-than is the converse of less-than', cx.zb(call(cx, g, a, b)) == ba)
                cx.cover('end')
            cx.explore(p.funcs[f]['n'] + '(%s)' % p.tname(p.funcs[f]['pt'][0]), run)
    return cx
def t_valid(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    iv, si = fn_id(p, 'aslam::HashId::isValid'), fn_id(p, 'aslam::HashId::setInvalid')
    def run(cx):
        a = new_id(cx, 'a'); A = bytes_of(cx, a)
        v = call(cx, iv, a)
        cx.oblige('valid exactly when some bit is set', cx.zb(v) == z3.Or(*[x != 0 for x in A]))
        cx.oblige('isValid changes nothing', same(bytes_of(cx, a), A))
        call(cx, si, a)
        cx.oblige('setInvalid clears every bit', same(bytes_of(cx, a), [z3.BitVecVal(0, 8)] * 16))
        cx.oblige('invalidated identifier is not valid', NOT(cx.b(call(cx, iv, a)))); cx.cover('end')
    cx.explore('isValid/setInvalid', run)
    for ct in [i for i in p.find('aslam::HashId::HashId') if not p.funcs[i]['pt']]:
        def run2(cx, ct=ct):
            r = cx.new_cell('o', cx.default(rectype(p, 'aslam::HashId')))
            call(cx, ct, r)
            cx.oblige('default-constructed identifier has no bit set', same(bytes_of(cx, r), [z3.BitVecVal(0, 8)] * 16)); cx.cover('end')
        cx.explore('default construction', run2)
    return cx
def t_copy(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog; H = 'aslam::HashId'
    fu, tu, asg = fn_id(p, H + '::fromUint64'), fn_id(p, H + '::toUint64'), fn_id(p, H + '::operator=')
    def run(cx):
        a = new_id(cx, 'a'); w = words(cx, 'w'); W = word_bytes(cx, w)
        call(cx, fu, a, Ptr(w.at(0)))
        cx.oblige('two-word import takes all 128 bits', same(bytes_of(cx, a), W)); cx.oblige('source words unchanged', same(word_bytes(cx, w), W)); cx.cover('end')
    cx.explore('fromUint64', run)
    def run(cx):
        a = new_id(cx, 'a'); A = bytes_of(cx, a); w = words(cx, 'w')
        call(cx, tu, a, Ptr(w.at(0)))
        cx.oblige('two-word export gives all 128 bits', same(word_bytes(cx, w), A)); cx.oblige('identifier unchanged', same(bytes_of(cx, a), A)); cx.cover('end')
    cx.explore('toUint64', run)
    def run(cx):
        a, b = new_id(cx, 'a'), new_id(cx, 'b'); B = bytes_of(cx, b)
        call(cx, asg, a, b)
        cx.oblige('assignment copies all 128 bits', same(bytes_of(cx, a), B)); cx.oblige('source unchanged', same(bytes_of(cx, b), B))
        call(cx, asg, a, a); cx.oblige('self-assignment keeps the value', same(bytes_of(cx, a), B)); cx.cover('end')
    cx.explore('operator=', run)
    for ct in [i for i in p.find(H + '::HashId') if p.funcs[i]['pt']]:
        def run(cx, ct=ct):
            r = cx.new_cell('o', cx.default(rectype(p, H)))
            if p.T(p.funcs[ct]['pt'][0])['k'] == 'ptr' if hasattr(p, 'T') else p.types[p.funcs[ct]['pt'][0]]['k'] == 'ptr':
                w = words(cx, 'w'); W = word_bytes(cx, w); call(cx, ct, r, Ptr(w.at(0)))
                cx.oblige('construction from two words takes all 128 bits', same(bytes_of(cx, r), W))
            else:
                b = new_id(cx, 'b'); B = bytes_of(cx, b); call(cx, ct, r, b)
                cx.oblige('copy construction copies all 128 bits', same(bytes_of(cx, r), B))
            cx.cover('end')
        cx.explore('HashId(%s)' % p.tname(p.funcs[ct]['pt'][0]), run)
    for cls in ('aslam::Id', 'aslam::UniqueId'):
        T = 'aslam::FrameId' if cls != 'aslam::Id' else cls
        for f in p.find(cls + '::fromHashId', lambda P, f: cls == 'aslam::Id' or 'FrameId' in f['n']):
            def run(cx, f=f, T=T):
                a, b = new_id(cx, 'a', T), new_id(cx, 'b'); B = bytes_of(cx, b); call(cx, f, a, b)
                cx.oblige('fromHashId copies all 128 bits', same(bytes_of(cx, a), B)); cx.cover('end')
            cx.explore(p.funcs[f]['n'], run)
        for f in p.find(cls + '::toHashId', lambda P, f: cls == 'aslam::Id' or 'FrameId' in f['n']):
            def run(cx, f=f, T=T):
                a, b = new_id(cx, 'a', T), new_id(cx, 'b'); A = bytes_of(cx, a); call(cx, f, a, Ptr(b))
                cx.oblige('toHashId copies all 128 bits', same(bytes_of(cx, b), A)); cx.oblige('identifier unchanged', same(bytes_of(cx, a), A)); cx.cover('end')
            cx.explore(p.funcs[f]['n'], run)
    return cx
def t_hash(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    todo = []
    for n in ('hashToSizeT', 'hashToSizeTFast'): todo += [(f, 'aslam::HashId', True) for f in p.find('aslam::HashId::' + n)]
    for f in p.find('std::hash::operator()'):
        n = p.funcs[f]['n']
        if 'pair' in n: todo.append((f, 'pair', False))
        else:
            m = re.match(r'std::hash<(aslam::\w+)>', n)
            if m: todo.append((f, m.group(1), False))
    if not todo: raise Unsupported('no hash functions')
    for f, t, member in todo:
        def run(cx, f=f, t=t, member=member):
            if t == 'pair':
                pt = ptype(p, f, 0); A = cx.T(pt)['a']
                vs = [cx.sym('x', A[0]['t']), cx.sym('y', A[1]['t'])]
                mk = lambda: cx.new_cell('pr', Rec(pt, {'first': vcopy(vs[0]), 'second': vcopy(vs[1])}))
                a, b = mk(), mk()
            else:
                a = new_id(cx, 'a', t); b = cx.new_cell('b', vcopy(cx.read(a)))
            # two distinct objects with equal bits; every other byte of state is arbitrary
            if member: h1, h2 = call(cx, f, a), call(cx, f, b)
            else:
                o1 = cx.new_cell('h1', Rec(p.funcs[f]['rec'], {})); o2 = cx.new_cell('h2', Rec(p.funcs[f]['rec'], {}))
                h1, h2 = call(cx, f, o1, a), call(cx, f, o2, b)
            cx.oblige('equal identifiers hash equally', bv(h1, 64) == bv(h2, 64)); cx.cover('end')
        cx.explore('hash ' + p.funcs[f]['n'], run)
    return cx
def tasks(env):
    return [Task('equality', t_eq), Task('order', t_order), Task('validity', t_valid), Task('copies', t_copy), Task('hash', t_hash)]
