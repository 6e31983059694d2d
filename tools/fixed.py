#!/usr/bin/env python3
"""fixed.py PROP 'commit subject prefix' 'what failed': append a fixed: line."""
import os,subprocess,sys
log=subprocess.check_output(['git','-C',os.environ.get('VERIF_REPO','/repo'),'log','--format=%h %s'],text=True).splitlines()
h=[l.split()[0] for l in log if l.split(' ',1)[1].startswith(sys.argv[2])]
assert len(h)==1,h
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/known_findings.txt','a').write("fixed: property=%s %s %s\n"%(sys.argv[1],h[0],sys.argv[3]))
