#!/usr/bin/env python3
"""Regenerates lib/known_fns.txt: the names of the functions of the tree the templates were written for."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.dont_write_bytecode = True
import extract
open(os.path.join(HERE, 'lib', 'known_fns.txt'), 'w').write('\n'.join(sorted(extract.fn_table('/repo'))) + '\n')
