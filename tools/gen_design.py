#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property sections + tools/design_tail.md"""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = subprocess.run([sys.executable, root + '/tools/design_tables.py'], check=True, stdout=subprocess.PIPE, text=True).stdout
open(root + '/DESIGN.md', 'w').write(open(root + '/tools/design_head.md').read() + body + open(root + '/tools/design_tail.md').read())
