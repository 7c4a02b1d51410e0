"""P14: unaligned target words."""
import ghkmgen

def run(c):
    for n, m, a in ((2, 3, 1), (2, 4, 2)) + (((3, 3, 1), (3, 3, 2), (2, 4, 1)) if c.thorough else ()):
        c.model('AttachModel', 'INIT AInit\nNEXT ANext\nCONSTANTS\nN = %d\nM = %d\nDrop = FALSE\nAtt = %d\nINVARIANTS EachOnce AlignedStay\n' % (n, m, a),
                'all trees over %d words, alignments with %d, attachment of %d: every derivation has every word of its span once' % (n, m, a))
    n = 900 if not c.thorough else 6000
    c.conform('P14_trace', [ghkmgen.case(c.rng, attach='top', compose=c.rng.random() < 0.4) for _ in range(n)], runner=ghkmgen.runner(c), corrupt=ghkmgen.corrupt,
              nontrivial=lambda x: len(x['align']) > 1, name='top')
    c.conform('P14_trace', [ghkmgen.case(c.rng, attach='exh', maxwords=4, compose=c.rng.random() < 0.25) for _ in range(n)], runner=ghkmgen.runner(c), corrupt=ghkmgen.corrupt,
              nontrivial=lambda x: len(x['align']) > 1, name='exhaustive')
