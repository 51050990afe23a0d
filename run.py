#!/usr/bin/python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE] [--part NAME]"""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import runner, json

prop = sys.argv[1]
title = ''
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l)
    if d['id'] == prop: title = d['title']
import registry
level, parts, assumptions = registry.get(prop)
sys.exit(runner.run_check(prop, title, level, parts, assumptions, argv=sys.argv[2:]))
