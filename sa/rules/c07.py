"""C07: the compiled reader never reads outside the data it was given."""
from ..native.session import Session

RULES = ('overread', 'bounds', 'uninit', 'dangling', 'unbacked')


def check(prog, rep, tier):
    rep.rule("Both halves of the compiled reader are interpreted abstractly from their entry functions (the C++ syntax tree from clang, the Cython tree from the Cython parser): every byte taken from the data, "
             "every copy and skip, every index into a vector, every use of a local, a field or a reference becomes an obligation, decided from the checks on the path. "
             "A read needs a check of what is left that dominates it, memory that is resized by a size of the file needs that size to be checked first, "
             "a field must have been stored before it is used, and a reference into a vector may not outlive a resize of it.")
    rep.assume("clang's syntax tree and Cython's parse tree say what the compilers compile; operator new and std::vector behave as documented.")
    s = Session(prog.repo)
    if s.error:
        rep.unclear('READERS', s.error)
        return
    for q in s.kinds:
        rep.count('compiled readers')
        for rule, key, where, text in q.mfindings + (q.entry or getattr(q, 'partial', None) or Nothing).findings:
            if rule in RULES:
                rep.finding('%s/%s' % (rule, key), 'the compiled reader of %s: %s' % (q.label, text), where)
        if q.error:
            rep.unclear(q.label, q.error)
            continue
        for u in q.unclears:
            rep.unclear(q.label, u)
        rep.count('readers interpreted')
        rep.count('obligations decided', q.obligations + q.entry.obl)
        rep.sample('%s (%s): %d reads and %d obligations' % (q.label, q.name, q.reads, q.obligations + q.entry.obl), 20)
    if not rep.undecided:
        rep.need('readers interpreted', 8)
        rep.need('obligations decided', 400)


class Nothing(object):
    findings = []
