"""C16: objects of another file are refused when saving."""
from ..saving import report


def check(prog, rep, tier):
    rep.rule("On every path of the save loop an object delivered by the walk is compared with the file being saved before its record is written and before it is skipped as already saved; a mismatch ends the save with an error. "
             "Every reference that is written is one the walk delivers (C27), and a reference is only encoded through the numbers of the objects written by this save.")
    rep.assume("The walk reaches every written reference (C27).")
    report(prog, rep, 'C16')
    if not rep.undecided:
        rep.need('record writes checked', 1)
        rep.need('iteration exits checked', 2)
