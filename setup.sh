#!/bin/bash
# Nothing to prepare beyond directories: every check builds what it needs from /repo's current tree.
cd "$(dirname "$0")" && mkdir -p build evidence replays
