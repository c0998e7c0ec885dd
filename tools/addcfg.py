import sys
# usage: addcfg.py ID  (reads entry text on stdin)
p='/verif/mc/config.py';s=open(p).read().rstrip()
import re
id=sys.argv[1];e=sys.stdin.read().rstrip()
s=re.sub(r'    "%s": \{\n.*?\n    \},\n'%id,'',s,flags=re.S)
assert s.endswith('}')
s=s[:-1].rstrip()+'\n    "%s": {\n%s\n    },\n}\n'%(id,e)
open(p,'w').write(s)
