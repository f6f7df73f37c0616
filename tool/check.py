#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current sources (see DESIGN.md). Exit 0 holds, 1 violated, 2 cannot analyse."""
import sys
import core
import rules

if __name__ == '__main__':
    pid = sys.argv[1]
    r = rules.RULES[pid]
    sys.exit(core.run(pid, r['fn'], r['explanation'], floor=r['floor'], raw=r.get('raw', False), anchors=r.get('anchors', 'anchors.txt'), assumptions=r.get('assumptions', ())))
