#!/bin/bash
# Builds everything the checks reuse (the checks rebuild it when /repo changes).
cd "$(dirname "$0")" || exit 2
printf '%s\n' C{01..22} | xargs -P 8 -I{} python3-vt -c "
import sys; sys.path.insert(0, '.')
from vf import falsify
b, log = falsify.build('{}')
print('{}', 'ready' if b else log[-2000:])
sys.exit(0 if b else 1)"
