from common import *
from gen_expr import *


def body(c):
    d = Diff(c, head=HEAD + tables(), batch=48)
    base = []
    fs = list(FORMS)
    if c.thorough:
        pairs = [(l, r) for l in fs for r in fs]
    else:
        pairs = [('loc', r) for r in fs] + [(l, 'loc') for l in fs if l != 'loc']
    for l, r in pairs:
        base += [(k, dc, b) for k, dc, b, t in binary_items([l], [r])]
        if c.thorough and len(base) > 20000:
            d.run(localize(base))
            base = []
    base += list(compound_items(('loc', 'glob', 'ptr', 'arr', 'mem', 'pmem')))
    base += list(conv_items())
    base += list(unary_items(FORMS))
    d.run(localize(base))
    pre, sp = fspec_items(fs if c.thorough else ('loc', 'glob', 'ptr', 'arr', 'pmem', 'call', 'deep', 'asg'))
    Diff(c, head=HEAD + tables() + pre, batch=24).run(localize(sp))
    lit = []
    for k, (key, dc, b) in enumerate(lit_items(fs if c.thorough else ('loc', 'glob', 'ptr', 'arr', 'pmem', 'call'))):
        import re
        for nm in ('g_a', 'S_a', 'id_a'):
            dc = re.sub(rf'\b{nm}\b', f'{nm}{k}', dc)
            b = re.sub(rf'\b{nm}\b', f'{nm}{k}', b)
        lit.append((key, dc, b, 1))
    Diff(c, head=HEAD + tables(), batch=12).run(uniq(lit))
    leaves = ('loc', 'ptr', 'arr') if c.thorough else ('loc',)
    for lf in leaves:
        ts = ('s32', 'u32', 's64', 'u64', 's8', 'u16', 'double', 'float') if c.thorough else ('s32', 'u64', 's8', 'double')
        d.run(uniq(tree_items(ts, lf)))
    d.run(uniq(pressure_items(range(0, 40) if c.thorough else (0, 1, 2, 4, 5, 6, 7, 8, 9, 13, 20))))
    c.cov['exhaustive'] = True
    c.cov['rule'] = ('every binary/compound/unary operator x operand type pair x operand form (thorough: all form pairs), evaluated over the full product of boundary values; every 4-leaf tree shape x operator triple; '
                     'right-leaning chains of every listed depth x innermost form. Oracle: clang-18 -O0 (wrapping signed arithmetic). Non-trivial: the expected observation is not all zero.')
    c.sample({'item': '/'.join(map(str, base[0][0])), 'body': base[0][2]})
    c.sample({'item': '/'.join(map(str, base[-1][0])), 'body': base[-1][2]})
    c.assumptions += ['the clang-18 reference is right on defined programs', 'behaviours outside the value tables are reached only through the value classes in them']


if __name__ == '__main__':
    main('C01', 'exploration', body)
