#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Decide one property: check.py ID [quick|thorough] [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from vlib import core
    rc = core.main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
