"""The abstract paths of the plain-text and source writers that report success are included,
for each kind of node, in the language that writes the leading white space, then the content
of that node once and in order, and no path of a node fails except by a failed write."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering); output-event automaton included in a regular language per node kind'
NOTE = 'Sound over the modelled standard library for every node; that `{:?}` quoting is inverted by the reader is trusted.'
MIN_OBLIGATIONS = 14


def check(ctx):
    for kind in ('text', 'sexp'):
        w = Writer(ctx, kind)
        if w.fn is None: continue
        for k in ('Symbol', 'Number', 'String', 'Raw'):
            v = 'node.%s.0.value' % k
            if kind == 'sexp' and k == 'String': body = sym('{%s:debug}' % v)
            elif kind == 'sexp' and k == 'Raw': body = cat_(lit('(%raw '), sym('{%s:debug}' % v), lit(')'))
            else: body = sym(v)
            w.run('%s: %s written once' % (kind, k), w.kind_of(k), cat_(sym(R(r'node\.\w+\.0\.leading_whitespace')), body), nofail=True)
        child = star(cat_(sym('more node.List.nodes i'), sym('node(node.List.nodes[i])')))
        w.run('%s: list written between parentheses, items in order' % kind, w.kind_of('List'),
              cat_(sym('node.List.leading_whitespace'), lit('('), child, sym('end node.List.nodes i'), sym('node.List.end_token.leading_whitespace'), lit(')')), nofail=True)
        w.run('%s: attribute written as keyword and value' % kind, w.kind_of('Attribute'),
              cat_(sym('node.Attribute.leading_whitespace'), lit(':'), sym('node.Attribute.keyword'), sym('node(node.Attribute.node)')), nofail=True)
        w.toplevel()
