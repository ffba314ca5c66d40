#!/bin/bash
# builds the IR reader; everything else is Python
cd "$(dirname "$0")" && mkdir -p evidence build && python3-vt -c 'import sys; sys.path.insert(0,"engine"); import build; print(build.irdump())'
