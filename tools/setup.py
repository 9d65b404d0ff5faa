#!/usr/bin/env python3
"""setup_cmd: everything is rebuilt from /repo by each check; this only verifies the tools are there."""
import shutil,sys,os
need=['clang++-18','opt-18','cvc5','g++']
miss=[t for t in need if not shutil.which(t)]
if not os.path.exists('/opt/veriftools/pyvenv/bin/python'): miss.append('/opt/veriftools/pyvenv')
print('missing: '+', '.join(miss) if miss else 'tools present'); sys.exit(1 if miss else 0)
