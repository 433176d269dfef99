"""C08: what the compiled reader finds wrong reaches the caller."""
from ..native.session import Session


def check(prog, rep, tier):
    rep.rule("Every way for the C++ side of the compiled reader to fail (a failing check of the bytes left, of a tag, of a size) is followed through the C++ callers and the Cython entry function: "
             "the failing status, or the flag it sets in the buffer, must be tested on every path and end in a raised exception. A result that is dropped, a status whose value no test tells from success, "
             "a Cython function that swallows exceptions, and an entry that never asks whether bytes are left over are violations.")
    rep.assume("clang's syntax tree and Cython's parse tree say what the compilers compile.")
    s = Session(prog.repo)
    if s.error:
        rep.unclear('READERS', s.error)
        return
    for q in s.kinds:
        rep.count('compiled readers')
        if q.error:
            rep.unclear(q.label, q.error)
            continue
        for u in q.unclears:
            rep.unclear(q.label, u)
        e = q.entry
        rep.count('readers interpreted')
        seen = set()
        for f in e.fails:
            rep.count('failures followed')
            if f.reported:
                continue
            if f.flags.get('?'):
                rep.unclear(q.label, 'an error that is noted before the function goes on: %s' % f.reason)
                continue
            drop = getattr(f, 'drop', None)
            if drop:
                key = 'ignored/%s/%s' % (drop[0], drop[1])
                text = 'a failure of %s is ignored by %s' % (drop[1], drop[0])
                where = drop[2]
            else:
                key = 'unreported/%s' % q.name
                text = 'a failure of %s (%s) raises nothing in %s' % (f.where, f.reason, q.name)
                where = q.name
            if key not in seen:
                seen.add(key)
                rep.finding(key, 'the compiled reader of %s: %s' % (q.label, text), where)
        rep.count('ends tested')
        if getattr(e, 'badleft', False):
            rep.finding('left-over/%s' % q.name, 'the compiled reader of %s raises although all of the data was taken' % q.label, q.name)
        elif not e.checked_left:
            rep.finding('left-over/%s' % q.name, 'the compiled reader of %s does not refuse data with bytes left over' % q.label, q.name)
        for name, line in sorted(e.swallow):
            rep.finding('swallow/%s' % name, 'the compiled reader of %s: an exception raised in %s does not reach its caller' % (q.label, name), '_ext.pyx:%s' % line)
        rep.sample('%s (%s): %d ways to fail' % (q.label, q.name, len(e.fails)), 20)
    if not rep.undecided:
        rep.need('readers interpreted', 8)
        rep.need('failures followed', 60)
