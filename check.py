#!/usr/bin/env python3
"""check.py P01 [quick|thorough] [--seed=N] [--n=N] [--only=i,j]   (VERIF_SEED / VERIF_TIER are honoured)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
sys.dont_write_bytecode = True
import frame
sys.exit(frame.main(sys.argv[1], sys.argv[2:]))
