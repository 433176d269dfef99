"""C10: every operation that changes an object with its own record marks it modified, and
marked objects are held strongly until the file is dropped."""
import ast
from ..flow import Flow, show, is_generator
from ..load import Func, Class, dotted
from .common import units

LIST_MUT = ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse',
            '__setitem__', '__delitem__', '__iadd__', '__imul__')
DICT_MUT = ('__setitem__', '__delitem__', 'clear', 'pop', 'popitem', 'move_to_end')
# reach __setitem__ in every supported interpreter, so they need no override of their own
DICT_DERIVED = ('update', 'setdefault', '__ior__')
MUTATORS = frozenset(LIST_MUT + DICT_MUT + DICT_DERIVED)


def externals(c):
    return set(b.split('.')[-1] for b in c.mro() if not isinstance(b, Class))


def check(prog, rep, tier):
    rep.rule("Every mutating operation of list (12) and OrderedDict (6) must, for each container class that tracks modification, resolve to a method of the package "
             "of which every normal exit that changed the container has marked the owner; storing a declared property must mark on every path; "
             "the mark must reach the strong table unless the file is being decoded or the object has no record; nothing else may take entries out of that table; "
             "and what a reader stores into a property must be a tracked container.")
    rep.assume("list.extend and friends do not fail half way; OrderedDict.update, setdefault and |= of a subclass go through __setitem__ (CPython and PyPy).")
    trackers(prog, rep)
    stores(prog, rep)
    marks(prog, rep)
    table(prog, rep)
    held(prog, rep)
    untracked(prog, rep)
    rep.need('container operations checked', 12)
    rep.need('property stores checked', 1)
    rep.need('mark functions checked', 1)


def is_mark(ev):
    return ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] in ('mark_modified', 'add_modified')


def container_classes(prog):
    for c in prog.classes():
        ext = externals(c)
        if c.find_method('mark_modified') is None or isinstance(c.find_method('mark_modified'), tuple):
            continue
        if 'list' in ext:
            yield c, 'list', LIST_MUT
        if 'dict' in ext or 'OrderedDict' in ext:
            yield c, 'dict', DICT_MUT


def trackers(prog, rep):
    done = {}
    for c, kind, muts in container_classes(prog):
        rep.count('tracked container classes')
        for m in muts:
            rep.count('container operations checked')
            f = c.find_method(m)
            if not isinstance(f, Func):
                if any(isinstance(b, Class) and m in b.assigns for b in c.mro()):
                    rep.unclear('%s.%s' % (c.name, m), 'the operation is a computed value')
                    continue
                owner = c
                for b in c.mro():      # report at the class that starts tracking
                    if isinstance(b, Class) and 'mark_modified' in b.methods:
                        owner = b
                rep.finding('untracked-operation/%s.%s' % (owner.name, m),
                            '%s.%s is the plain %s operation: it changes the container without marking the object modified' % (owner.name, m, kind), owner.where)
                continue
            k = (id(f.node), c if c.find_method('mark_modified').cls is not f.cls else f.cls)
            if k in done:
                continue
            done[k] = True
            mutator(prog, rep, c, f, m)


def touches(ev):
    """does this event change the container `self` is?"""
    t = ev.target
    if ev.kind == 'call' and t[0] == 'attr':
        b = t[1]
        if t[2] in MUTATORS:
            if b == ('self',) or (b[0] == 'call' and b[1] == ('builtin', 'super')):
                return True
            if ev.args and ev.args[0] == ('self',) and b[0] in ('builtin', 'ext', 'class'):
                return True
    if ev.kind in ('store', 'del', 'aug') and t[0] in ('idx', 'slice') and t[1] == ('self',):
        return True
    if ev.kind == 'aug' and t == ('self',):
        return True
    return False


def op_marks(prog, c, op, f):
    """does the class's own operation mark on every way out?"""
    m = c.find_method(op) if op else None
    if not isinstance(m, Func) or m.node is f.node:
        return False
    o = Flow(prog, lambda st, ev: [True] if is_mark(ev) else None, opaque=is_mark).run(m, {False}, cls=c)
    return bool(o.n | o.ret) and all(o.n | o.ret)


def mutator(prog, rep, c, f, name):
    seen = {'unknown': False}

    def step(st, ev):
        dirty, marked = st
        if is_mark(ev):
            return [(dirty, True)]
        if ev.kind in ('store', 'del', 'aug') and ev.target[0] in ('idx', 'slice') and ev.target[1] == ('self',):
            # an assignment to self[...] is a call of the class's own operation
            return [(True, marked or op_marks(prog, c, '__delitem__' if ev.kind == 'del' else '__setitem__', f))]
        if ev.kind == 'aug' and ev.target == ('self',):
            return [(True, marked or op_marks(prog, c, {'Add': '__iadd__', 'Mult': '__imul__', 'BitOr': '__ior__'}.get(type(ev.node.op).__name__ if isinstance(ev.node, ast.AugAssign) else ''), f))]
        if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[1] == ('self',) and any(isinstance(b, Class) and ev.target[2] in b.assigns for b in c.mro()):
            seen['computed'] = True
        if touches(ev):
            return [(True, marked)]
        if ev.kind == 'call' and ev.target[0] != 'attr' and (ev.target[0] == 'call' and any(a == ('self',) or a[0] == 'call' and a[1] == ('builtin', 'super') for a in ev.target[2]) or any(a == ('self',) for a in ev.args)):
            seen['unknown'] = seen['computed'] = True       # an operation chosen by name
        if ev.kind == 'call' and not touches(ev):
            if any(a == ('self',) for a in ev.args) and not (ev.target[0] == 'builtin'):
                seen['unknown'] = True
            if ev.target[0] == 'attr' and ev.target[1] == ('self',) and ev.callee is None:
                seen['unknown'] = True
        return None
    fl = Flow(prog, step, opaque=is_mark)
    o = fl.run(f, {(False, False)}, cls=c)
    ends = o.n | o.ret
    where = f.where
    owner = f.cls.name if f.cls else '?'
    if seen.get('computed') and any(d and not m for d, m in ends):
        rep.unclear('%s.%s' % (owner, name), 'it calls an operation that is a computed value')
    elif any(d and not m for d, m in ends):
        rep.finding('unmarked/%s.%s' % (owner, name), '%s.%s can change the container and return without marking the object modified' % (owner, name), where)
    elif not any(d for d, m in ends):
        if seen['unknown'] or not ends:
            rep.unclear('%s.%s' % (owner, name), 'what it changes is not visible')
        else:
            rep.finding('no-effect/%s.%s' % (owner, name), '%s.%s does not change the container it is called on' % (owner, name), where)
    else:
        rep.sample('%s.%s: %d normal exits, all marked' % (owner, name, len(ends)))


# -- property stores -----------------------------------------------------------

def property_store(ev):
    t = ev.target
    if ev.kind in ('store', 'aug') and t[0] == 'idx' and t[1] == ('attr', ('self',), 'property_data'):
        return True
    if ev.kind == 'del' and t[0] == 'idx' and t[1] == ('attr', ('self',), 'property_data'):
        return True
    if ev.kind == 'call' and t[0] == 'attr' and t[1] == ('attr', ('self',), 'property_data') and t[2] in MUTATORS:
        return True
    return False


def mentions_property_data(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and n.attr == 'property_data':
            return True
    return False


def stores(prog, rep):
    base = prog.need_class('AVBObject')
    found_set = False
    for f in prog.functions():
        if f.cls is None or not f.cls.is_subclass('AVBObject') or f.kind in ('static', 'class'):
            continue
        if not mentions_property_data(f.node) and f.name != '__setattr__':
            continue
        if f.name in ('__init__', '__new__'):
            continue

        def step(st, ev):
            stored, marked = st
            if is_mark(ev):
                return [(stored, True)]
            if property_store(ev):
                return [(True, marked)]
            return None
        fl = Flow(prog, step, opaque=is_mark)
        o = fl.run(f, {(False, False)}, cls=f.cls)
        ends = o.n | o.ret
        if not any(s for s, m in ends):
            continue
        if f.name == 'read' or f.name.startswith('read_'):
            continue
        rep.count('property stores checked')
        if f.name == '__setattr__':
            found_set = True
        if any(s and not m for s, m in ends):
            rep.finding('unmarked-store/%s.%s' % (f.cls.name, f.name),
                        '%s.%s can store a property and return without marking the object modified' % (f.cls.name, f.name), f.where)
    for c in prog.classes():
        if c.is_subclass('AVBObject') and '__setattr__' in c.methods and c is not base:
            rep.count('attribute store overrides')
            # must reach the base one
            f = c.methods['__setattr__']

            def step2(st, ev):
                if is_mark(ev):
                    return [True]
                if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == '__setattr__':
                    return [True]
                return None
            o = Flow(prog, step2).run(f, {False}, cls=c)
            if False in (o.n | o.ret):
                rep.unclear('%s.__setattr__' % c.name, 'a path does not reach the inherited attribute store')
    if not found_set:
        f = base.find_method('__setattr__')
        if isinstance(f, Func):
            rep.unclear('AVBObject.__setattr__', 'stores no property that the analysis sees')


# -- the mark itself ---------------------------------------------------------------

def reason(d):
    """what a test in a mark function is about: (what, truth that excuses not marking)"""
    if d[0] == 'attr' and d[2] == 'reading':
        return True
    if d[0] == 'cmp' and d[3] in (('const', True), ('const', False)) and d[2][0] == 'attr' and d[2][2] == 'reading':
        return (d[1] in ('Is', 'Eq')) == (d[3] == ('const', True))
    if d[0] == 'call' and d[1] == ('builtin', 'hasattr') and len(d[2]) == 2:
        if d[2][1] in (('const', 'instance_id'), ('const', 'root')):
            return False
        if d[2][1] == ('const', 'class_id'):
            return 'neutral'
    if d[0] == 'call' and d[1] == ('builtin', 'isinstance'):
        return 'neutral'
    if d[0] == 'attr' and d[2] == 'class_id':
        return 'neutral'
    if d[0] == 'attr' and d[2] in ('parent', 'instance_id', 'root'):
        return False
    if d[0] == 'call' and d[1] == ('builtin', 'getattr') and len(d[2]) >= 2 and d[2][1][0] == 'const':
        n = d[2][1][1]
        if n in ('parent', 'instance_id', 'root'):
            return False
        if n == 'reading':
            return True
        if n == 'class_id':
            return 'neutral'
    if d[0] == 'cmp' and d[3] == ('const', None) and d[1] in ('Is', 'IsNot', 'Eq', 'NotEq'):
        r = reason(d[2])
        if r is False:
            return d[1] in ('Is', 'Eq')
        return r if r == 'neutral' else None
    if d[0] == 'cmp' and d[1] in ('In', 'NotIn') and d[3][0] == 'attr' and d[3][2] == 'modified_objects':
        return d[1] == 'In'
    if d[0] == 'local' and len(d) > 2:
        return reason(d[2])
    if d[0] == 'not':
        r = reason(d[1])
        return (not r) if isinstance(r, bool) else r
    return None


def marks(prog, rep):
    done = set()
    for c in prog.classes():
        f = c.find_method('mark_modified')
        if not isinstance(f, Func):
            continue
        k = id(f.node)
        if k in done:
            continue
        done.add(k)
        rep.count('mark functions checked')

        # state: (excused, marked, unknown test)
        def step(st, ev):
            ex, mk, unk = st
            if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == 'add_modified':
                return [(ex, True, unk)]
            if ev.kind == 'store' and ev.target[0] == 'idx' and ev.target[1][0] == 'attr' and ev.target[1][2] == 'modified_objects':
                return [(ex, True, unk)]
            if ev.kind == 'call' and ev.callee is None and not (ev.target[0] == 'builtin'):
                return [(ex, mk, 'call %s' % show(ev.target))]
            if ev.kind == 'test':
                r = reason(ev.target)
                if r is None:
                    return [(ex, mk, unk or 'test')]
                if r == 'neutral':
                    return None
                if ev.truth == r:
                    return [(True, mk, unk)]
            return None
        fl = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == 'add_modified')
        o = fl.run(f, {(False, False, None)}, cls=f.cls)
        for ex, mk, unk in sorted(o.n | o.ret, key=str):
            if mk or ex:
                continue
            name = '%s.%s' % (f.cls.name, f.name)
            if unk and unk.startswith('call'):
                rep.unclear(name, 'marks through %s' % unk)
            else:
                rep.finding('mark-skipped/%s' % name, '%s can return without recording the object although the file is not being decoded and the object has a record' % name, f.where)
        if not any(mk for ex, mk, unk in o.n | o.ret) and not any(u and u.startswith('call') for _, _, u in o.n | o.ret):
            rep.finding('mark-never/%s.%s' % (f.cls.name, f.name), '%s.%s never records the object' % (f.cls.name, f.name), f.where)


def table(prog, rep):
    """modified objects are held by a strong mapping that only grows"""
    fc = prog.need_class('AVBFile')
    add = fc.find_method('add_modified')
    if isinstance(add, Func):
        def step(st, ev):
            if ev.kind == 'store' and ev.target[0] == 'idx' and ev.target[1] == ('attr', ('self',), 'modified_objects'):
                i = ev.target[2]
                if i[0] == 'attr' and i[2] == 'instance_id' and i[1] == ev.value:
                    return [True]
                return ['odd']
            if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[1] == ('attr', ('self',), 'modified_objects'):
                return [True if ev.target[2] == 'setdefault' else 'odd']
            if ev.kind == 'test' and reason(ev.target) is not None and reason(ev.target) != 'neutral' and reason(ev.target) == ev.truth:
                return [True]
            return None
        o = Flow(prog, step).run(add, {False}, cls=fc)
        ends = o.n | o.ret
        rep.count('table functions checked')
        if False in ends:
            rep.finding('add-skipped', 'AVBFile.add_modified can return without holding the object', add.where)
        elif 'odd' in ends:
            rep.unclear('AVBFile.add_modified', 'how the object is stored is not visible')
    else:
        rep.unclear('AVBFile', 'no add_modified')
    for f in prog.functions():
        for n in ast.walk(f.node):
            what = None
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'modified_objects':
                        what = 'deletes from'
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popitem', 'clear') \
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == 'modified_objects':
                what = 'takes from'
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr == 'modified_objects':
                        rep.count('table assignments checked')
                        v = n.value
                        ctor = dotted(v.func) if isinstance(v, ast.Call) else None
                        if not (isinstance(v, ast.Dict) or (ctor or '').split('.')[-1] in ('dict', 'OrderedDict', 'defaultdict')):
                            if ctor and 'Weak' in ctor:
                                rep.finding('weak-table', 'the table of modified objects does not keep them alive', f.where)
                            else:
                                rep.unclear(f.qual, 'modified_objects set to something not recognised')
                        elif f.name != '__init__':
                            what = 'replaces'
            if what and f.name not in ('close', '__exit__', '__del__'):
                rep.finding('table-shrinks/%s' % f.qual, '%s %s the table of modified objects, so a changed object can be dropped and re-read in its old state' % (f.qual, what),
                            '%s:%d' % (f.module.rel, n.lineno))


def held(prog, rep):
    """a new object with a record is held from the start"""
    fac = prog.need_class('AVBFactory')
    f = fac.find_method('from_name')
    if not isinstance(f, Func):
        rep.unclear('AVBFactory', 'no from_name')
        return

    def is_new(ev):
        return ev.kind == 'store' and ev.target[0] == 'attr' and ev.target[2] == 'instance_id'

    def step(st, ev):
        hasid, kept = st
        if is_new(ev):
            return [(True, kept)]
        if ev.kind == 'store' and ev.target[0] == 'idx' and ev.target[1][0] == 'attr' and ev.target[1][2] == 'modified_objects':
            return [(hasid, True)]
        if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] in ('add_modified', 'mark_modified'):
            return [(hasid, True)]
        return None
    o = Flow(prog, step, opaque=is_mark).run(f, {(False, False)}, cls=fac)
    rep.count('creation paths checked', len(o.n | o.ret))
    if any(h and not k for h, k in o.n | o.ret):
        rep.finding('new-not-held', 'a newly created object with an id is returned without being held by the file', f.where)
    if not any(h for h, k in o.n | o.ret):
        rep.unclear(f.qual, 'no id given to the new object that the analysis sees')


def untracked(prog, rep):
    """containers a reader stores into a property"""
    tops = set()
    fc = prog.need_class('AVBFile')
    for name, f in sorted(fc.methods.items()):
        if not isinstance(f, Func) or not any(isinstance(n, ast.Attribute) and n.attr == 'content' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
            continue

        def step(st, ev):
            if ev.kind == 'store' and ev.target == ('attr', ('self',), 'content'):
                words(ev.value)
            return None

        def words(d):
            if isinstance(d, tuple):
                for x in d:
                    words(x)
            elif isinstance(d, str) and prog.find_class(d) is not None:
                tops.add(d)
        Flow(prog, step, opaque=lambda ev: ev.kind == 'call').run(f, {0}, cls=fc)
    if not tops:
        rep.unclear('AVBFile.content', 'the kind of the top object is not visible')
        return
    for u in units(prog, rep):
        if u.al is None:
            continue
        if any(u.cls.is_subclass(t) for t in tops):
            continue                     # the top object is held by the file itself
        for path, o in u.al.binds.shapes.items():
            if not (path[0] == 'attr' and path[1] == ('self',)):
                continue
            name = path[2]
            if o.meta.get('tuple'):
                continue
            rep.count('containers in properties checked')
            owner = declaring(prog, u.cls, name)
            if o.kind in ('list', 'dict'):
                rep.finding('untracked-container/%s.%s' % (owner, name),
                            '%s.%s is read as a plain %s: changing it in place does not mark the object, so the change is lost when the object is collected and re-read' % (owner, name, o.kind), u.cls.where)
            elif o.kind == 'inst' and o.meta.get('listlike') and o.cls is not None:
                kw = o.meta.get('kw') or {}
                if 'parent' in kw:
                    if kw['parent'] != ('obj', u.r.self_id):
                        rep.unclear('%s.%s' % (u.name, name), 'parent is not the object itself')
                    else:
                        rep.count('tracked lists in properties')
                elif 'parent' not in o.fields:
                    rep.finding('orphan-list/%s.%s' % (owner, name),
                                '%s.%s is read as a list that does not know its owner: changing it does not mark the object' % (owner, name), u.cls.where)


def declaring(prog, cls, name):
    for b in cls.mro():
        if isinstance(b, Class):
            r = b.assigns.get('propertydefs')
            if r is None:
                continue
            try:
                own = prog.propertydefs(b)
            except Exception:
                continue
            if any(d[0] == name for d in own):
                best = b.name
                continue
            break
    return locals().get('best', cls.name)
