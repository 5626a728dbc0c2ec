"""Write contracts/shapes.tsv from an extraction map of the tree the contracts were written for."""
import json, os, sys
m = json.load(open(sys.argv[1]))['shapes']
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'shapes.tsv'), 'w') as f:
    for k in sorted(m):
        f.write('%s\t%s\t%s\n' % (k, m[k][0], m[k][1]))
