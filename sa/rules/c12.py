"""C12: opening is lazy; loading an object loads no other."""
import ast
from ..load import Func, Class
from ..flow import Flow, show
from ..loading import strip, contains, loaders
from .common import units


def check(prog, rep, tier):
    rep.rule("No path through the reader of any object kind, the reference reader, the constructor of a reference or a mutating operation of a reference list resolves a reference or loads a record; "
             "opening a file loads exactly one record, the top object named by the header, outside any loop, and passes over the others by their stored size.")
    rep.assume("Resolution happens through AVBObjectRef.value, the item access and iteration of reference lists, property access and AVBFile.read_object; their own behaviour is decided by C13.")
    readers(prog, rep)
    opening(prog, rep)
    passive(prog, rep)
    rep.need('readers checked', 35)
    rep.need('opening paths', 1)
    rep.need('passive operations checked', 8)


def readers(prog, rep):
    for u in units(prog, rep):
        if u.r is None:
            rep.unclear(u.name, u.crash or 'no reader')
            continue
        rep.count('readers checked')
        for ev in u.r.events:
            if ev[0] == 'deref-in-read':
                rep.finding('read/%s/%s' % (u.name, ev[3][1]), 'reading a %s resolves the reference in %s (%s), which loads another object' % (u.name, ev[3][0], ev[3][1]), '%s:%s' % (ev[1], ev[2]))


def opening(prog, rep):
    fc = prog.need_class('AVBFile')
    names = set(L.func.name for L in loaders(prog)) | {'read_object'}
    f = fc.find_method('__init__')
    if not isinstance(f, Func):
        rep.unclear('AVBFile', 'no constructor')
        return

    def is_load(ev):
        return ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] in names

    def many(d):
        return contains(d, lambda x: x[0] == 'elem') or contains(d, lambda x: x[0] == 'loopvar')

    def step(st, ev):
        if is_load(ev):
            a = ev.args[0] if ev.args else None
            if a is not None and many(a):
                rep.finding('open/loop', 'opening a file loads the records of a whole list (%s)' % show(a), ev.where)
            rep.count('records loaded by opening')
            if a is not None:
                s = strip(a)
                if s[0] == 'const':
                    rep.finding('open/other', 'opening a file loads record %s instead of the top object named in the header' % show(s), ev.where)
            return [min(2, st + 1)]
        if ev.kind == 'iter' and ev.target[0] == 'call' and ev.target[1][0] == 'attr' and ev.target[1][2] in ('chunks', 'iter_class_ids'):
            rep.finding('open/scan', 'opening a file goes through the records with %s()' % ev.target[1][2], ev.where)
        if ev.kind == 'load' and ev.target[0] == 'attr' and ev.target[1] == ('attr', ('self',), 'content'):
            rep.finding('open/content', 'opening a file accesses %s of the top object' % ev.target[2], ev.where)
        if ev.kind == 'iter' and contains(ev.target, lambda d: d == ('attr', ('self',), 'content')):
            rep.finding('open/content', 'opening a file goes through the top object', ev.where)
        return None
    o = Flow(prog, step, opaque=lambda ev: is_load(ev) or ev.kind == 'call' and ev.callee is not None and ev.callee.module.name.endswith('ioctx')).run(f, {0}, cls=fc)
    for st in o.n | o.ret:
        rep.count('opening paths')
        if st > 1:
            rep.finding('open/more', 'opening a file loads more than the top object', f.where)
    # and the module level entry point
    for m in prog.all_modules():
        g = prog.resolve_name(m, 'open')
        if isinstance(g, Func) and g.module.rel.startswith('src'):
            def step2(st, ev):
                t = ev.target
                if ev.kind == 'call' and t[0] == 'attr' and t[2] in names | {'chunks', 'iter_class_ids'}:
                    rep.finding('open/entry', '%s loads records itself with %s()' % (g.qual, t[2]), ev.where)
                if ev.kind in ('load', 'iter') and contains(t, lambda d: d[0] == 'attr' and d[2] == 'content'):
                    rep.finding('open/entry', '%s looks into the top object' % g.qual, ev.where)
                return None
            Flow(prog, step2, opaque=lambda ev: True).run(g, {0})
            rep.count('entry points')
            break


RESOLVE = ('value',)


def passive(prog, rep):
    """operations that hold or store references without needing the object"""
    names = set(L.func.name for L in loaders(prog)) | {'read_object'}
    todo = []
    c = prog.find_class('AVBObjectRef')
    if c is not None:
        for n in ('__init__', 'valid', 'class_id', '__repr__', 'read_chunk'):
            m = c.find_method(n) or c.find_property(n)
            if isinstance(m, Func):
                todo.append((m, c))
    c = prog.need_class('AVBIOContext')
    m = c.find_method('read_object_ref')
    if isinstance(m, Func):
        todo.append((m, c))
    c = prog.need_class('AVBFile')
    for n in ('read_chunk', 'chunks'):
        m = c.find_method(n)
        if isinstance(m, Func):
            todo.append((m, c))
    for cn, ops in (('AVBRefList', ('append', 'extend', 'insert', 'clear', '__setitem__', '__delitem__', 'reverse', 'mark_modified')),
                    ('Attributes', ('__setitem__', '__delitem__', 'clear', 'mark_modified')),
                    ('AVBPropertyData', ('__setitem__', '__delitem__'))):
        c = prog.find_class(cn)
        if c is None:
            continue
        for n in ops:
            m = c.find_method(n)
            if isinstance(m, Func):
                todo.append((m, c))

    for m, c in todo:
        rep.count('passive operations checked')

        def step(st, ev, m=m):
            t = ev.target
            if ev.kind == 'call' and t[0] == 'attr' and t[2] in names:
                rep.finding('passive/%s' % m.qual, '%s loads the object behind a reference' % m.qual, ev.where)
            if ev.kind == 'load' and t[0] == 'attr' and t[2] in RESOLVE and (t[1][0] in ('self', 'local', 'param') and refish(t[1])):
                rep.finding('passive/%s' % m.qual, '%s resolves a reference (%s)' % (m.qual, show(t)), ev.where)
            return None

        def refish(d):
            s = strip(d)
            if s == ('self',):
                return c.name == 'AVBObjectRef'
            return s[0] == 'call' and s[1][0] == 'class' and s[1][1] == 'AVBObjectRef'
        Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] in names or
             ev.kind == 'load' and ev.target[0] == 'attr' and ev.target[2] in RESOLVE).run(m, {0}, cls=c)
