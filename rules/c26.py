"""C26: git-at --summary looks at the first line only.

git-at is followed from its start under each combination of its options.  Wherever a pattern is matched to
select a commit it is the one from the command line, compiled as it is, and what it is matched against is the
commit's whole message, or with --summary the part before the first newline."""
from gitat import *


def check(ctx):
    run(ctx, "C26")
