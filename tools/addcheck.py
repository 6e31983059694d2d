#!/usr/bin/env python3
"""addcheck.py ID 'units expr' 'note' : add a registry entry"""
import sys
s=open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/checks.py').read()
e='    "%s": dict(units=%s, note=%r),\n'%(sys.argv[1],sys.argv[2],sys.argv[3])
assert '"%s":'%sys.argv[1] not in s
s=s.replace("\n}\n\nNA","\n"+e+"}\n\nNA",1)
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/checks.py','w').write(s)
