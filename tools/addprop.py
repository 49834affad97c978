import sys
p='/verif/tools/props.mjs'
s=open(p).read().rstrip()
assert s.endswith('];')
open(p,'w').write(s[:-2]+sys.stdin.read().strip()+'\n];\n')
