from rule import *


def pre(c):
    """the preprocessor accepts the fixture archetypes and what it generates compiles; otherwise no contract is looked at"""
    for e in c.facts.get('genfail', ()):
        c.ob('archetype', 'inst/allvars.cycpp.h', False, e, 'cli/cycpp.py')
    return bool(c.facts.get('genfail'))


def check(c):
    if not c.facts.get('genfail'):
        c.ob('archetype', 'inst/allvars.cycpp.h', True, 'preprocessed and compiled', 'cli/cycpp.py')
