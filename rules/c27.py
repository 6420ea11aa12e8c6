"""C27: git-recent-refs sorts by the requested date, newest first.

git-recent-refs is followed from its start without --sort and with each of its values, which the command line
must accept.  In the order of visits, HEAD and then the previous positions are looked up, one by one, to the
number of checkouts in HEAD's reflog (exactly, where there are fewer than three), and each that is found is
printed before the next is looked up.  In the other orders the references are all listed, one being left out
only where it was found not to resolve to a commit, and each name is printed only where they are sorted: the
comparison or key the sort was given is followed on two elements and must come to the date asked for of the
commit, later ones first."""
from recent import *


def check(ctx):
    run(ctx, "C27")
    values(ctx)
    for w in ("ends", "positions", "references", "orders", "lines"):
        if not ctx.sites.get(w):
            ctx.violation("nothing-to-judge", MAIN, "-", "no reachable construct was found: " + w)
