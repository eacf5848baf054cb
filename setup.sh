#!/bin/bash
# Nothing has to be installed; warm the object cache (checks rebuild whatever is missing).
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib')
import build; print(build.ampgen_lib())"
