"""Known findings (genuine defects which are recorded and not repaired)."""

import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(name):
    """Entries: "known: property=<id> kind=<kind> match=<regex> what=<text>"."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as fid:
            for line in fid:
                m = re.match(r"known:\s+property=(\S+)\s+kind=(\S+)\s+match=(.*?)\s+what=(.*)$", line.strip())
                if m and m.group(1) == name:
                    out.append((m.group(2), m.group(3), m.group(4)))
    return out
