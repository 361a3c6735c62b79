S, BK, F, FM, H, CD, XD, I = ('xlrd/sheet.py', 'xlrd/book.py', 'xlrd/formatting.py', 'xlrd/formula.py', 'xlrd/biffh.py', 'xlrd/compdoc.py', 'xlrd/xldate.py', 'xlrd/__init__.py')
PLANTS = []


def P(id, prop, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))
