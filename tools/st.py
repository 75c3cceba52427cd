#!/usr/bin/env python3
"""st.py ID 'new statement' -- replace the statement of a property in gen_properties.py and regenerate"""
import sys,re,subprocess
p='/verif/tools/gen_properties.py'; s=open(p).read()
i=s.index("prop('%s'"%sys.argv[1]); a=s.index('\n',i)+1; b=s.index('\n',a)
new=sys.argv[2].strip().replace("\\","\\\\").replace("'","\\'")
s=s[:a]+" '"+new+"',"+s[b:]
open(p,'w').write(s)
subprocess.check_call(['python3',p])
