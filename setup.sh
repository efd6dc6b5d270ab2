#!/bin/sh
# Nothing has to be prebuilt: every check builds the library from /repo and its
# own harness in a scratch folder.  This only confirms that the tools are there.
set -e
g++ --version > /dev/null
make --version > /dev/null
python3 -c 'import json'
mkdir -p evidence replays
