#!/usr/bin/env python3
"""addfix.py PID REV TEXT: record a fix: commit of /repo in known_findings.json"""
import json, subprocess, sys
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', sys.argv[2]], text=True).strip()
k = json.load(open('/verif/known_findings.json'))
k['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[3]))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
