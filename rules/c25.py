"""C25: git-at selects the first matching commit, honouring its options.

git-at is followed from its start under each combination of its options, with and without a revision.  The
walk starts at the revision given, HEAD otherwise, sorted by time, newest first; nothing else limits it or
passes over its commits: each is looked up, and the walk goes on to the next only on paths where the pattern
was found not to match, or, with --no-fixup, the pattern for fixup commits was found to match (which is
evaluated on samples); a commit is printed, or with --show given to git show, only where the pattern matched
it and, with --no-fixup, the other didn't."""
from gitat import *


def check(ctx):
    run(ctx, "C25")
