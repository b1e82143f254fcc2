#!/usr/bin/env python3
"""Says whether the tools the checks need are there. Each check builds what it needs itself."""
import shutil, sys
missing = [t for t in ('clang', 'clang++', 'objcopy', 'chmod') if not shutil.which(t)]
print('missing: ' + ' '.join(missing) if missing else 'ready')
sys.exit(1 if missing else 0)
