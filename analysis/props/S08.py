"""For lists with a non-empty symbol at the head, the abstract paths of the HTML node writer
that report success are checked for inclusion in the language of one element: declaration,
void element, or element with its children in order and one closing tag of the same name
(one obligation per void element and per special element). Other lists must not succeed,
nor void elements with children."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering); output-event automaton included in a regular language per element class'
NOTE = 'Sound over the modelled standard library for every node shape; exact names and order of written pieces; letter case of the closing tag is not compared; content of nested generators is decided under S09, S12, S13.'
MIN_OBLIGATIONS = 25


def check(ctx):
    w = Writer(ctx, 'html')
    if w.fn is None: return
    w.named('declaration: one tag, no children, no closing tag', [('first', '!')],
            cat_(OPEN, star(cat_(ANYLOOP, lit(' '), sym(R(SEQ + r'\[%s\]\.(Symbol|Number|String|Raw)\.0\.value' % IDX)))), ANYLOOP, END, lit('>')))
    for v in VOID: w.named('void element <%s>: one tag and nothing else' % v, [('one', [v])], void())
    w.named('element: opened, children in order, closed once', [('notfirst', '!'), ('not', VOID + SPECIAL)], element(CHILDREN))
    for tag in SPECIAL:
        body = alt(CHILDREN, sym(R(r'gen-\w+\(' + REST + r'\)')), sym(R(r'node\.List\.end_token\..*')), sym(R(r'.*String\.0\.value')))
        w.named('element <%s>: opened, content once, closed once' % tag, [('one', [tag])], element(cat_(opt(lit('\n')), body)))
    w.bad_lists()
    w.never('an attribute after the first child is an error', w.kind_of('Attribute'))
    w.toplevel()
