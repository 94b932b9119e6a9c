#!/usr/bin/env python3
"""Development aid: mkone.py SCRIPT ID...   make only these seeds of a seed script"""
import sys; sys.path.insert(0, "/verif/tools")
import mkseed
ids, made = set(sys.argv[2:]), mkseed.mk
mkseed.mk = lambda id, *a: made(id, *a) if id in ids else None
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
