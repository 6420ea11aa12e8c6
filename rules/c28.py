"""C28: A pager or child process is waited for before exit.

git-recent-refs, on a terminal, and git-at are followed from their starts under each of their options, with
what runs when a value is dropped.  On every path to an exit, through process::exit or the end of main, a
process that was started has been waited for (and not killed)."""
import gitat
import recent
from common import *


def check(ctx):
    recent.run(ctx, "C28", True)
    gitat.run(ctx, "C28")
    if not ctx.sites.get("children"):
        ctx.violation("nothing-to-judge", "-", "-", "no reachable construct starts a process")
