#!/bin/sh
# Regenerates harness/mon/p22_golden.go. Only for a change of formats that is
# intended: the file holds encodings of the original version.
set -e
VERIFMON_P22_GEN=/tmp/p22gold.json python3 /verif/run.py P22 quick --case none || true
{ printf 'package main\n\n// Encodings made by the original version (see tools/gengolden.sh).\nconst p22goldenJSON = `'; cat /tmp/p22gold.json; printf '`\n'; } > /verif/harness/mon/p22_golden.go
rm -f /tmp/p22gold.json
