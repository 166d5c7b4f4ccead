"""For lists with a non-empty symbol at the head, the abstract paths of the XML node writer
that report success are included in the language of one declaration, one processing
instruction or one element; other lists and bare attributes must not succeed."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering); output-event automaton included in a regular language per element class'
NOTE = 'Sound over the modelled standard library for every node shape; exact names and order of written pieces.'
MIN_OBLIGATIONS = 8


def items(front):
    it = alt(sym(R(r'(esc\()?' + SEQ + r'\[%s\]\.(Symbol|Number|String|Raw)\.0\.value\)?' % IDX)),
             cat_(sym(R(A_ + 'keyword')), lit('="'), sym(R(ANYVALUE.replace('%s', A_))), lit('"')))
    close = cat_(opt(lit(' ')), lit('?>')) if front == '?' else lit('>')
    return cat_(OPEN, star(cat_(ANYLOOP, alt(lit(' '), sym(R(SEQ + r'\[%s\]\.\w+\.(0\.)?leading_whitespace' % IDX))), it)), ANYLOOP, END, close)


def check(ctx):
    w = Writer(ctx, 'xml')
    if w.fn is None: return
    w.named('declaration: every item after white space, `>`', [('first', '!')], items('!'))
    w.named('processing instruction: every item after white space, `?>`', [('first', '?')], items('?'))
    w.named('element: opened, attributes, children in order, closed once', [('notfirst', '!?')], element(CHILDREN))
    w.bad_lists()
    w.never('a bare attribute is an error', w.kind_of('Attribute'))
    w.toplevel()
