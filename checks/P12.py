"""P12: minimal GHKM rules."""
import ghkmgen

def run(c):
    for n, m in ((2, 3), (3, 2), (3, 3)) + (((4, 3), (3, 4)) if c.thorough else ()):
        c.model('GhkmModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = %d\nM = %d\nDrop = FALSE\nINVARIANTS Root One GivesTarget GivesSource Together Whole\n' % (n, m),
                'all trees over %d words, all alignments with %d: the rules give back tree and target, aligned words share a rule' % (n, m))
    c.model('GhkmModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = 2\nM = 3\nDrop = TRUE\nINVARIANTS GivesTarget\n',
            'not with a frontier that ignores the closure of the targets', expect_violation='GivesTarget')
    n = 700 if not c.thorough else 6000
    c.conform('P12_trace', [ghkmgen.case(c.rng, forest=f) for f in (False, True) for _ in range(n)], runner=ghkmgen.runner(c), corrupt=ghkmgen.corrupt,
              nontrivial=lambda x: len(x['align']) > 1)
