#!/bin/bash
# Builds the framework: the tools and a first build of /repo (both under build/).
set -e
cd "$(dirname "$0")"
exec python3 -c 'import sys; sys.path.insert(0, "driver"); import runner; runner.ensure_tools(); import pktline; pktline.build()'
