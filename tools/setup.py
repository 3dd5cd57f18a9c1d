#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles what it needs from /repo in its scratch directory.
Verifies that the tools the checks use are there."""
import shutil, sys, os
missing = [t for t in ('gcc', 'java', 'make', 'as', 'ld', 'python3', 'prlimit') if not shutil.which(t)]
for f in ('tla2tools.jar', 'CommunityModules-deps.jar'):
    if not os.path.exists('/opt/veriftools/tla/' + f): missing.append(f)
print('missing: %s' % missing if missing else 'ok'); sys.exit(1 if missing else 0)
