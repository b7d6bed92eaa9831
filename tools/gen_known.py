#!/usr/bin/env python3
"""Adds a 'fixed:' line to known_findings.txt for a fix commit: gen_known.py PROP HASH TEXT"""
import sys,os
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.txt')
open(f,'a').write(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}\n")
