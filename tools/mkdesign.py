"""DESIGN.md from its parts and the inventory of harnesses and planted bugs"""
import json, glob, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
d = os.path.join(root, 'tools')
out = open(d + '/design_head.md').read() + subprocess.run([sys.executable, d + '/inventory.py'], capture_output=True, text=True).stdout
out += open(d + '/design_tail.md').read()
caught = json.load(open(d + '/caught.json'))
out += '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out += f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not yet run')} |\n"
open(root + '/DESIGN.md', 'w').write(out)
