"""Entries of KNOWN_FINDINGS.txt."""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')


def known(pid, fid):
    """Description of a listed finding that is not repaired, or None."""
    with open(FILE) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
            if m and m.group(1) == pid and m.group(2) == fid:
                return m.group(3).strip()
    return None
