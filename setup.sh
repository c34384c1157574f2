#!/bin/bash
# Builds the checking machinery from the committed files and /repo's current tree. Offline.
cd "$(dirname "$0")" || exit 1
exec /opt/veriftools/pyvenv/bin/python3 -m vp.build
