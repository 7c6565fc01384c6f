#!/bin/bash
# tools/fin.sh P31 : regenerate properties and manifest, run the check, commit
cd /verif; python3-vt mkprops.py && python3-vt mkmanifest.py && python3-vt check.py $1 | tail -5 && git add -A && git commit -qm "${2:-$1}" && git status --short | head -3
