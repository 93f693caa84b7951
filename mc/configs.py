"""Configurations (one compiled harness each) and the configurations/categories that decide every property."""
import json, os
C = {}
def add(name, src, flags=(), **kw):
    d = dict(name=name, src=src, flags=list(flags)); d.update(kw); C[name] = d; return name
def resolve(n): return C[n]

# ---------------------------------------------------------------- list / slist
LINKS = {0: 'normal', 1: 'safe', 2: 'auto'}
HOOKS = {0: 'base', 1: 'member', 2: 'function', 3: 'stateful', 4: 'derivation', 5: 'trivial', 6: 'membertraits'}
def seq(name, *flags, **kw): return add(name, 'seq.cpp', flags, **kw)
LIST = []
for l in LINKS:
    for h in HOOKS:
        if l == 2 and h >= 3: continue
        LIST.append(seq('list-%s-%s' % (LINKS[l], HOOKS[h]), '-DMC_LINK=%d' % l, '-DMC_HOOK=%d' % h))
LIST += [seq('list-nosize', '-DMC_CTS=0'), seq('list-rel', '-DMC_PTR=1'), seq('list-rel-auto', '-DMC_PTR=1', '-DMC_LINK=2'),
         seq('list-rel-stateful', '-DMC_PTR=1', '-DMC_HOOK=3'), seq('list-header', '-DMC_HH=1'), seq('list-u8', '-DMC_SIZET=unsigned char')]
SLIST = []
for lin in (0, 1):
    for ca in (0, 1):
        for cts in (0, 1):
            SLIST.append(seq('slist-%s%s%s' % ('linear' if lin else 'circ', '-last' if ca else '', '-size' if cts else '-nosize'),
                             '-DMC_SLIST=1', '-DMC_LINEAR=%d' % lin, '-DMC_CACHE=%d' % ca, '-DMC_CTS=%d' % cts))
SLISTX = []
for l in LINKS:
    for h in HOOKS:
        if (l == 2 and h >= 3) or (l == 1 and h == 0): continue
        SLISTX.append(seq('slist-%s-%s' % (LINKS[l], HOOKS[h]), '-DMC_SLIST=1', '-DMC_LINK=%d' % l, '-DMC_HOOK=%d' % h))
SLISTX += [seq('slist-rel', '-DMC_SLIST=1', '-DMC_PTR=1'), seq('slist-rel-auto', '-DMC_SLIST=1', '-DMC_PTR=1', '-DMC_LINK=2'),
           seq('slist-rel-linear', '-DMC_SLIST=1', '-DMC_PTR=1', '-DMC_LINEAR=1', '-DMC_LINK=0'), seq('slist-u8', '-DMC_SLIST=1', '-DMC_SIZET=unsigned char'),
           seq('slist-header', '-DMC_SLIST=1', '-DMC_HH=1'), seq('slist-last-normal', '-DMC_SLIST=1', '-DMC_CACHE=1', '-DMC_LINK=0'),
           seq('slist-linear-last-normal', '-DMC_SLIST=1', '-DMC_CACHE=1', '-DMC_LINEAR=1', '-DMC_LINK=0'),
           seq('slist-last-stateful', '-DMC_SLIST=1', '-DMC_CACHE=1', '-DMC_HOOK=3')]
BIG = '-DMC_KEYS=0,0,1,1,2,2'
LISTBIG = [seq('list-big6', BIG, weight=5), seq('list-big6-nosize', BIG, '-DMC_CTS=0', '-DMC_LINK=2', weight=5), seq('list-big7', '-DMC_KEYS=0,0,0,1,1,1,2', '-DMC_GROUPS=0x0f', weight=9)]
SLISTBIG = [seq('slist-big6%s%s' % ('-linear' if l else '', '-last' if c else ''), BIG, '-DMC_SLIST=1', '-DMC_LINEAR=%d' % l, '-DMC_CACHE=%d' % c, weight=5) for l in (0, 1) for c in (0, 1)]


# ---------------------------------------------------------------- trees
TREES = ['bs', 'rb', 'avl', 'splay', 'sg', 'treap']
APIS = ['set', 'mset', 'raw']
QB = {('rb', 0): (7, 4), ('rb', 1): (6, 4), ('rb', 2): (5, 4), ('avl', 0): (7, 4), ('avl', 1): (6, 4), ('avl', 2): (5, 4), ('bs', 0): (6, 4), ('bs', 1): (5, 3), ('bs', 2): (5, 3),
      ('splay', 0): (6, 4), ('splay', 1): (5, 3), ('splay', 2): (4, 3), ('sg', 0): (5, 3), ('sg', 1): (4, 3), ('sg', 2): (4, 2), ('treap', 0): (4, 3), ('treap', 1): (4, 3), ('treap', 2): (3, 3)}
TB = {('rb', 0): (9, 5), ('rb', 1): (7, 5), ('rb', 2): (6, 5), ('avl', 0): (9, 5), ('avl', 1): (7, 5), ('avl', 2): (6, 5), ('bs', 0): (7, 5), ('bs', 1): (6, 4), ('bs', 2): (6, 4),
      ('splay', 0): (7, 5), ('splay', 1): (6, 4), ('splay', 2): (6, 4), ('sg', 0): (6, 4), ('sg', 1): (5, 4), ('sg', 2): (5, 4), ('treap', 0): (5, 4), ('treap', 1): (5, 4), ('treap', 2): (5, 4)}
SMALL = {'rb': (5, 3), 'avl': (5, 3), 'bs': (4, 3), 'splay': (4, 3), 'sg': (3, 2), 'treap': (3, 2)}
def tree(fam, api, tag='', *flags, **kw):
    """one tree configuration; nb=(one container, two containers) element bounds"""
    na, nb = kw.pop('nb', None) or QB[(fam, api)]
    name = '%s-%s%s' % (fam, APIS[api], '-' + tag if tag else '')
    fl = ['-DMC_TREE=%d' % TREES.index(fam), '-DMC_API=%d' % api, '-DMC_NA=%d' % na, '-DMC_NB=%d' % nb] + list(flags)
    if fam == 'sg' and not any(f.startswith('-DMC_FP') for f in fl): fl.append('-DMC_FP=0')
    kw.setdefault('weight', 3 + na)
    if name in C: assert C[name]['flags'] == fl, name
    return add(name, 'tree.cpp', fl, **kw)
def trees(fams, apis, tag='', *flags, **kw): return [tree(f, a, tag, *flags, **dict(kw)) for f in fams for a in apis]
def trees_small(fams, apis, tag, *flags, **kw): return [tree(f, a, tag, *flags, nb=SMALL[f], **dict(kw)) for f in fams for a in apis]
def trees_deep(fams, apis, *flags): return [tree(f, a, 'deep', *flags, nb=TB[(f, a)], weight=20, targs=['--seconds', '3000', '--max-states', '600000']) for f in fams for a in apis]
LEANQ = {'rb': 15, 'avl': 17, 'bs': 9, 'splay': 9, 'sg': 9, 'treap': 6}
LEANT = {'rb': 20, 'avl': 23, 'bs': 12, 'splay': 12, 'sg': 11, 'treap': 8}
def lean(fam, api, n, tag, *flags): return add('%s-%s-%s%d' % (fam, APIS[api], tag, n), 'tree.cpp', ['-DMC_TREE=%d' % TREES.index(fam), '-DMC_API=%d' % api, '-DMC_NA=%d' % n, '-DMC_NB=1', '-DMC_LEAN=1', '-DMC_VARIANTS=1'] + list(flags), weight=10, targs=['--max-states', '3000000', '--seconds', '3000'])
LEAN_Q = [lean(f, 0, LEANQ[f], 'lean') for f in TREES] + [lean('sg', 0, 9, 'lean-fixed', '-DMC_FP=0'), lean('rb', 1, 13, 'lean'), lean('avl', 1, 13, 'lean'), lean('treap', 1, 5, 'lean')]
LEAN_T = [lean(f, 0, LEANT[f], 'lean') for f in TREES] + [lean('sg', 0, 12, 'lean-fixed', '-DMC_FP=0'), lean('rb', 1, 18, 'lean'), lean('avl', 1, 20, 'lean'), lean('treap', 1, 7, 'lean')]
TREE_Q = trees(TREES, (0, 1)); TREE_RAW = trees(TREES, (2,)); TREE_DEEP = trees_deep(TREES, (0, 1, 2))
SG_FP = [tree('sg', a, 'fp', '-DMC_FP=1', nb=(3, 2)) for a in (0, 1)]
NOSG = [t for t in TREES if t != 'sg']
AUTOT = ['bs', 'rb', 'avl', 'splay', 'treap']
T_AUTO = trees_small(AUTOT, (0, 1), 'auto', '-DMC_LINK=2') + trees_small(['rb', 'bs'], (2,), 'auto', '-DMC_LINK=2')
T_AUTOX = [t for h in (1, 2) for t in trees_small(AUTOT, (0,), 'auto-' + HOOKS[h], '-DMC_LINK=2', '-DMC_HOOK=%d' % h)]
T_NORMAL = trees_small(TREES, (0, 1), 'normal', '-DMC_LINK=0')
T_NOSIZE = trees_small(NOSG, (0, 1), 'nosize', '-DMC_CTS=0')
T_HOOK = [t for h in (1, 2, 3, 4) for t in trees_small(TREES, (0, 1), HOOKS[h], '-DMC_HOOK=%d' % h)]
T_REL = trees_small(TREES, (0, 1), 'rel', '-DMC_PTR=1') + trees_small(['rb', 'avl'], (0,), 'rel-auto', '-DMC_PTR=1', '-DMC_LINK=2') + trees_small(['rb', 'avl'], (2,), 'rel-stateful', '-DMC_PTR=1', '-DMC_HOOK=3')
T_OPT = trees_small(['rb', 'avl'], (0, 1, 2), 'opt', '-DMC_OPT=1')
T_KOV = trees_small(TREES, (0, 1), 'kov', '-DMC_KOV=1')
T_HH = trees_small(TREES, (0, 1), 'header', '-DMC_HH=1')
T_U8 = trees_small(TREES, (0, 1), 'u8', '-DMC_SIZET=unsigned char')
T_NA = trees_small(TREES, (0, 1), 'noassert', '-DBOOST_DISABLE_ASSERTS')
G = dict(INS=1, HINT=2, RANGE=4, ERASE=8, DISPOSE=16, CLONE=32, SWAP=64, MISUSE=128, AUTO=256, THROW=512, RELOC=1024, SWAPNODES=2048, MERGE=4096, REB=8192, LOOKUP=16384)
def groups(*g): return '-DMC_GROUPS=%d' % sum(G[x] for x in g)
T_SWAP = [tree(f, a, 'swap', groups('INS', 'ERASE', 'SWAP', 'LOOKUP', 'REB'), nb=nb) for f, nb in (('rb', (6, 5)), ('avl', (6, 5)), ('bs', (5, 4)), ('splay', (4, 4)), ('treap', (3, 3))) for a in (0, 1)] + \
         [tree('sg', 0, 'swap', groups('INS', 'ERASE', 'SWAP', 'REB'), '-DMC_FP=1', nb=(4, 3)), tree('sg', 1, 'swap', groups('INS', 'ERASE', 'SWAP', 'REB'), nb=(4, 3))]
T_CLONE = [tree(f, a, 'clone', groups('INS', 'ERASE', 'CLONE'), nb=nb) for f, nb in (('rb', (6, 6)), ('avl', (6, 6)), ('bs', (5, 5)), ('splay', (5, 5)), ('treap', (4, 4))) for a in (0, 1)] + \
          [tree('sg', 0, 'clone', groups('INS', 'ERASE', 'CLONE', 'REB'), '-DMC_FP=1', nb=(4, 3)), tree('sg', 1, 'clone', groups('INS', 'ERASE', 'CLONE'), nb=(4, 4))]
# normal-link hooks are not initialised: whatever the hooks of the clones held before must not matter
T_CLONE_N = [tree(f, a, 'clone-normal', groups('INS', 'ERASE', 'CLONE'), '-DMC_LINK=0', nb=nb) for f, a, nb in (('rb', 0, (6, 6)), ('avl', 1, (6, 6)), ('bs', 0, (5, 5)), ('splay', 1, (5, 5)), ('treap', 0, (4, 4)), ('sg', 1, (4, 4)))]

# ---------------------------------------------------------------- unordered containers
import itertools
HAPI = ['uset', 'umset', 'htable']
POLS = ['mod', 'pow2', 'inc', 'fast']
H_SMALL = {0: (3, 2, 3), 1: (3, 2, 3), 2: (2, 1, 3), 3: (3, 2, 3)}
H_TINY = {0: (2, 1, 3), 1: (2, 1, 3), 2: (2, 1, 2), 3: (2, 1, 3)}
H_BIG = {0: (4, 3, 4), 1: (4, 3, 4), 2: (3, 2, 3), 3: (4, 3, 4)}
def hsh(api, pol, lb=0, cb=0, mk=0, sh=0, cts=1, link=1, kov=0, hook=0, ptr=0, sub=1, size='', nb=None, tag='', flags=(), **kw):
    """one configuration of an unordered container; sh: 0 no stored hash, 1 stored, 2 stored and compared"""
    nb = nb or H_SMALL[pol]
    if link == 2: cts, cb = 0, 0
    name = 'h-%s-%s%s%s%s%s%s%s%s%s%s%s%s%s' % (HAPI[api], POLS[pol], '-lb' if lb else '', '-cb' if cb else '', '-mk' if mk else '', ['', '-sh', '-ch'][sh], '' if cts else '-nosize',
        '' if link == 1 else '-' + LINKS[link], '-kov' if kov else '', '-' + HOOKS[hook] if hook else '', '-rel' if ptr else '', '-sub' if sub == 2 else '', '-u8' if size else '', ('-' + tag) if tag else '')
    fl = ['-DMC_API=%d' % api, '-DMC_POL=%d' % pol, '-DMC_LB=%d' % lb, '-DMC_CB=%d' % cb, '-DMC_MK=%d' % mk, '-DMC_SH=%d' % (sh > 0), '-DMC_CH=%d' % (sh == 2), '-DMC_CTS=%d' % cts, '-DMC_LINK=%d' % link,
          '-DMC_KOV=%d' % kov, '-DMC_HOOK=%d' % hook, '-DMC_PTR=%d' % ptr, '-DMC_SUB=%d' % sub, '-DMC_NA=%d' % nb[0], '-DMC_NB=%d' % nb[1], '-DMC_KEYS=%d' % nb[2]] + (['-DMC_SIZET=' + size] if size else []) + list(flags)
    if name in C:
        assert C[name]['flags'] == fl, name
        return name
    kw.setdefault('weight', 12 if pol == 2 else 6)
    return add(name, 'hash.cpp', fl, **kw)
def covering(dims, t):
    """deterministic greedy covering array of strength t"""
    names = list(dims); need = set()
    for idx in itertools.combinations(range(len(names)), t):
        for vals in itertools.product(*[dims[names[i]] for i in idx]): need.add((idx, vals))
    allrows = list(itertools.product(*[dims[n] for n in names])); rows = []
    combos = list(itertools.combinations(range(len(names)), t))
    while need:
        best, bc = None, -1
        for r in allrows:
            c = sum(1 for idx in combos if (idx, tuple(r[i] for i in idx)) in need)
            if c > bc: best, bc = r, c
        rows.append(dict(zip(names, best)))
        for idx in combos: need.discard((idx, tuple(best[i] for i in idx)))
    return rows
HDIMS = dict(pol=(0, 1, 2, 3), api=(1, 0, 2), sh=(0, 1, 2), lb=(0, 1), cb=(0, 1), mk=(0, 1), cts=(1, 0))
H_PAIR = [hsh(**r) for r in covering(HDIMS, 2)]
H_TRIPLE = [hsh(**r) for r in covering(HDIMS, 3)]
H_FULL = [hsh(nb=H_TINY[r['pol']], tag='t', **r) for r in covering(HDIMS, len(HDIMS))]
H_DEEP = [hsh(nb=H_BIG[p], tag='deep', pol=p, api=a, mk=m, sh=2 * m, lb=l, cb=l, weight=30, targs=['--seconds', '3000']) for p in (0, 1, 2, 3) for a in (0, 1, 2) for m in (0, 1) for l in (0, 1) if not (m and a == 0)]
H_AUTO = [hsh(a, p, mk=m, sh=s, link=2) for a, p, m, s in ((0, 0, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (2, 1, 1, 1), (1, 2, 1, 0), (0, 3, 0, 2), (0, 2, 0, 0), (2, 3, 0, 0))]
H_AUTOX = [hsh(1, 0, mk=1, link=2, hook=h) for h in (1, 2)] + [hsh(1, 0, lb=1, link=2)]
H_NORMAL = [hsh(a, p, mk=m, lb=l, link=0) for a, p, m, l in ((0, 0, 0, 1), (1, 0, 1, 0), (1, 1, 0, 1), (2, 3, 1, 1))]
H_HOOK = [hsh(1, 0, mk=1, hook=h) for h in (1, 2, 3, 4)] + [hsh(0, 0, hook=h) for h in (1, 2, 3, 4)] + [hsh(0, 0, kov=1), hsh(1, 1, mk=1, kov=1), hsh(1, 0, size='unsigned char'), hsh(0, 3, size='unsigned short')]
H_REL = [hsh(1, 0, ptr=1), hsh(0, 1, ptr=1, cb=1), hsh(1, 0, ptr=1, mk=1, sh=1), hsh(1, 0, ptr=1, lb=1, mk=1), hsh(0, 3, ptr=1, lb=1, cb=1), hsh(2, 2, ptr=1, nb=(2, 1, 2)), hsh(1, 0, ptr=1, hook=3), hsh(1, 0, ptr=1, link=2, mk=1)]
H_SUBV = [hsh(a, p, mk=m, sub=2, cts=c) for a, p, m, c in ((0, 0, 0, 1), (1, 0, 0, 0), (1, 0, 1, 1), (2, 0, 1, 0), (0, 1, 0, 0))] + [hsh(1, 0, lb=1, sub=2), hsh(2, 0, lb=1, mk=1, sub=2)]
H_CORE = [hsh(0, 0), hsh(1, 0), hsh(1, 0, mk=1, sh=1), hsh(2, 1, lb=1, cb=1, mk=1), hsh(1, 0, lb=1), hsh(0, 3, cb=1), hsh(2, 2)]

PROPS = {}
def prop(pid, quick, cats, thorough=None, note=''):
    PROPS[pid] = dict(quick=quick, cats=cats, note=note, thorough=thorough or quick)
def uniq(*ls):
    r = []
    for l in ls:
        for x in l:
            if x not in r: r.append(x)
    return r
LISTQ = ['list-safe-base', 'list-normal-base', 'list-auto-base', 'list-nosize', 'list-safe-member', 'list-safe-stateful', 'list-big6']
SLISTQ = SLIST + ['slist-auto-base', 'slist-last-normal', 'slist-safe-stateful']
prop('C01', LISTQ, ['order', 'ret', 'bytes', 'iter', 'swap', 'clone', 'disposer'], LIST + LISTBIG)
prop('C02', SLISTQ, ['order', 'ret', 'bytes', 'iter', 'swap', 'clone', 'disposer'], SLIST + SLISTX + SLISTBIG)
prop('C03', uniq(TREE_Q, ['rb-raw', 'splay-raw', 'rb-set-lean15', 'avl-set-lean17', 'splay-set-lean9']), ['order', 'ret', 'struct', 'bytes', 'disposer', 'insert', 'rebalance'], uniq(TREE_Q, TREE_RAW, LEAN_T, TREE_DEEP, T_NORMAL, T_AUTO))
prop('C04', uniq(TREE_Q, ['rb-raw', 'splay-raw']), ['lookup', 'readonly'], uniq(TREE_Q, TREE_RAW, TREE_DEEP, T_KOV))
prop('C05', uniq(TREE_Q, TREE_RAW), ['insert'], uniq(TREE_Q, TREE_RAW, TREE_DEEP, T_KOV, T_HOOK))
prop('C06', uniq(LEAN_Q, ['rb-set', 'rb-mset', 'avl-set', 'avl-mset', 'sg-set', 'sg-mset', 'splay-set', 'splay-mset', 'bs-set', 'rb-raw', 'avl-raw'], SG_FP, ['rb-set-opt', 'avl-set-opt']), ['balance', 'splay', 'rebalance'],
     uniq(LEAN_T, TREE_Q, TREE_RAW, SG_FP, T_OPT, TREE_DEEP, T_AUTO))
prop('C07', ['treap-set', 'treap-mset', 'treap-raw', 'treap-set-lean6', 'treap-mset-lean5', 'treap-set-kov', 'treap-mset-kov', 'treap-set-auto', 'treap-set-nosize', 'treap-set-noassert'], ['heap', 'order', 'struct', 'ret'],
     ['treap-set-deep', 'treap-mset-deep', 'treap-raw-deep', 'treap-set-lean8', 'treap-mset-lean7', 'treap-set-kov', 'treap-mset-kov', 'treap-set-auto', 'treap-mset-auto', 'treap-set-nosize', 'treap-set-noassert'])
HCAT = ['order', 'ret', 'lookup', 'bytes', 'insert', 'functor', 'readonly']
prop('C08', uniq(H_PAIR, H_CORE), HCAT, uniq(H_PAIR, H_TRIPLE, H_FULL, H_DEEP, H_NORMAL, H_HOOK))
prop('C09', uniq(H_PAIR, H_CORE), ['bucket', 'rehash', 'order', 'lookup', 'size', 'iter', 'linked'], uniq(H_PAIR, H_TRIPLE, H_FULL, H_DEEP))
prop('C10', uniq(['list-safe-base', 'list-nosize', 'list-auto-base', 'list-u8', 'slist-circ-last-size', 'slist-linear-size', 'slist-linear-last-nosize', 'slist-circ-size', 'slist-u8'],
                 [t + '-set' for t in TREES], ['rb-mset', 'rb-set-nosize', 'bs-set-nosize', 'rb-set-u8', 'treap-mset-nosize', 'avl-mset-u8']), ['size'], uniq(LIST, SLIST, SLISTX, TREE_Q, T_NOSIZE, T_U8, T_AUTO, T_HH))
prop('C11', uniq(['list-safe-base', 'list-safe-member', 'list-safe-stateful', 'list-safe-derivation', 'slist-circ-last-size', 'slist-circ-nosize', 'slist-linear-size', 'slist-safe-member'], [t + '-set' for t in TREES], ['rb-mset', 'splay-mset', 'rb-set-member', 'bs-set-stateful', 'avl-set-derivation']),
     ['linked', 'misuse'], uniq([n for n in LIST if 'safe' in n], SLIST, [n for n in SLISTX if 'safe' in n], TREE_Q, [n for n in T_HOOK]))
prop('C12', uniq(['list-auto-base', 'list-auto-member', 'list-auto-function', 'slist-auto-base', 'slist-auto-member', 'list-rel-auto'], T_AUTO), ['auto', 'linked'], uniq([n for n in LIST if 'auto' in n], [n for n in SLISTX if 'auto' in n], T_AUTO, T_AUTOX))
prop('C13', uniq(['list-safe-base', 'list-normal-base', 'slist-circ-last-size', 'slist-linear-nosize', 'slist-circ-size'], TREE_Q), ['disposer'], uniq(LIST, SLIST, SLISTX, TREE_Q, TREE_RAW, T_NORMAL, T_AUTO))
prop('C14', uniq(['list-safe-base', 'list-big6', 'slist-circ-last-size', 'slist-linear-nosize', 'slist-circ-nosize'], T_NA), ['throw'], uniq(LISTBIG, SLIST, SLISTBIG, ['list-safe-base'], T_NA, trees(TREES, (0, 1, 2), 'na', '-DBOOST_DISABLE_ASSERTS')))
prop('C15', uniq(['list-safe-base', 'list-safe-stateful', 'slist-circ-last-size', 'slist-linear-nosize', 'list-nosize', 'list-normal-base', 'slist-last-normal'], T_CLONE, T_CLONE_N), ['clone', 'order', 'size', 'struct'], uniq(LIST, SLIST, SLISTX, T_CLONE, T_CLONE_N, TREE_Q))
prop('C16', uniq(['list-safe-base', 'list-nosize', 'list-header', 'list-safe-stateful', 'slist-circ-last-size', 'slist-linear-last-nosize', 'slist-linear-size', 'slist-circ-nosize'], T_SWAP, ['rb-set-header']), ['swap', 'functor'], uniq(LIST, SLIST, SLISTX, T_SWAP, T_HH, TREE_Q))
prop('C17', uniq(['list-safe-base', 'list-safe-stateful', 'list-normal-member', 'slist-circ-last-size', 'slist-linear-nosize', 'slist-safe-stateful'], [t + '-set' for t in TREES], ['rb-set-stateful', 'avl-set-member', 'bs-set-function', 'rb-mset-opt', 'splay-mset']),
     ['iter', 'ret', 'swap'], uniq(LIST, SLIST, SLISTX, TREE_Q, T_HOOK, T_OPT))
ALLT = ['order', 'ret', 'size', 'iter', 'linked', 'disposer', 'clone', 'throw', 'rel', 'bytes', 'reloc', 'struct', 'balance', 'heap', 'splay', 'rebalance', 'lookup', 'functor', 'insert', 'swap', 'auto', 'misuse']
prop('C19', uniq([n for n in LIST + SLISTX if '-rel' in n], T_REL), ALLT)
prop('C23', uniq(['list-safe-base', 'list-nosize', 'slist-circ-last-size', 'slist-linear-nosize'], [t + '-set' for t in TREES], [t + '-mset' for t in TREES]), ['rel'], uniq(LIST, SLIST, TREE_Q, TREE_RAW))
prop('C24', uniq(['list-safe-member', 'list-safe-function', 'list-safe-stateful', 'list-safe-derivation', 'list-safe-trivial', 'list-header', 'list-u8', 'slist-safe-function', 'slist-safe-stateful', 'slist-normal-derivation', 'slist-safe-trivial', 'slist-header'],
     ['rb-set-opt', 'avl-set-opt', 'avl-mset-opt', 'rb-set-kov', 'treap-set-kov', 'rb-set-header', 'bs-mset-function', 'avl-set-stateful', 'rb-mset-derivation', 'splay-set-member', 'sg-set-header', 'rb-set-u8', 'treap-set-stateful', 'treap-set-header']),
     ALLT, uniq(LIST, SLISTX, T_OPT, T_KOV, T_HH, T_HOOK, T_U8))
HADD = {
    'C10': (uniq(['h-uset-mod', 'h-umset-mod-mk-sh', 'h-htable-pow2-lb-cb-mk', 'h-umset-mod-u8', 'h-htable-pow2-mk-ch-nosize', 'h-uset-inc-nosize']), uniq(H_TRIPLE, H_HOOK, H_AUTO)),
    'C11': (uniq(H_PAIR, ['h-umset-mod-mk-member', 'h-uset-mod-stateful']), uniq(H_TRIPLE, H_HOOK)),
    'C12': (uniq(H_AUTO, H_AUTOX), uniq(H_AUTO, H_AUTOX)),
    'C13': (uniq(H_PAIR), uniq(H_TRIPLE, H_AUTO, H_NORMAL)),
    'C14': (uniq(H_PAIR), uniq(H_TRIPLE, H_DEEP)),
    'C15': (uniq(H_PAIR), uniq(H_TRIPLE, H_NORMAL, H_DEEP)),
    'C16': (uniq(H_PAIR, ['h-uset-mod-stateful']), uniq(H_TRIPLE, H_NORMAL, H_HOOK)),
    'C17': (uniq(H_PAIR, ['h-umset-mod-mk-stateful', 'h-uset-mod-member']), uniq(H_TRIPLE, H_HOOK, H_NORMAL)),
    'C19': (uniq(H_REL), uniq(H_REL)),
    'C23': (uniq(H_SUBV, ['h-uset-mod-lb-cb-mk-sh-nosize', 'h-umset-pow2-cb-sh', 'h-umset-fast-lb-cb-mk-nosize']), uniq(H_SUBV, H_TRIPLE)),
    'C24': (uniq(H_HOOK, H_NORMAL), uniq(H_HOOK, H_NORMAL, H_TRIPLE)),
}
for _p, (_q, _t) in HADD.items():
    PROPS[_p]['quick'] = uniq(PROPS[_p]['quick'], _q); PROPS[_p]['thorough'] = uniq(PROPS[_p]['thorough'], _q, _t)
for _p in ('C19', 'C24'): PROPS[_p]['cats'] = PROPS[_p]['cats'] + ['bucket', 'rehash', 'cost']
BUCKETS = [add('buckets-suggest', 'bucketidx.cpp', ['-DMC_PART=0'], opt='-O2', link=['-pthread'], weight=60, qargs=['--quick']),
           add('buckets-index', 'bucketidx.cpp', ['-DMC_PART=1'], opt='-O2', link=['-pthread'], weight=20, qargs=['--quick'])]
B_FASTQ = add('buckets-fastmod', 'bucketidx.cpp', ['-DMC_PART=2', '-DMC_SHARE=16'], opt='-O2', link=['-pthread'], weight=90)
B_FASTT = add('buckets-fastmod-all', 'bucketidx.cpp', ['-DMC_PART=2', '-DMC_SHARE=1'], opt='-O2', link=['-pthread'], weight=900)
prop('C25', uniq(BUCKETS, [B_FASTQ], H_CORE), ['suggest', 'index', 'bucket', 'rehash'], uniq(BUCKETS, [B_FASTT], H_PAIR, H_CORE))
PROPS['C25']['technique'] = 'exhaustive enumeration of the input space on the real code (all 8/16/32-bit requests; all 32-bit hashes x all provided counts), plus explicit-state exploration of the containers with aliasing guards around the bucket array'
# ---------------------------------------------------------------- node algorithms
LK = ['circ2', 'circ1', 'linear']
def lalgo(k, ptr, n, tag='', w=3): return add('algo-%s%s%s' % (LK[k], '-rel' if ptr else '', tag), 'listalgo.cpp', ['-DMC_KIND=%d' % k, '-DMC_PTR=%d' % ptr, '-DMC_N=%d' % n], weight=w)
def talgo(f, ptr, n, m, tag='', w=8): return add('algo-%s%s%s' % (f, '-rel' if ptr else '', tag), 'treealgo.cpp', ['-DMC_ALGO=%d' % ['rb', 'avl', 'bs', 'splay', 'treap', 'sg'].index(f), '-DMC_PTR=%d' % ptr, '-DMC_N=%d' % n, '-DMC_M=%d' % m], weight=w)
ALGO_L = [lalgo(k, 0, 7) for k in (0, 1, 2)]; ALGO_LR = [lalgo(k, 1, 6) for k in (0, 1, 2)]; ALGO_LT = [lalgo(k, 0, 8, '-deep', 12) for k in (0, 1, 2)]
ALGO_T = [talgo('rb', 0, 11, 8), talgo('avl', 0, 12, 9), talgo('bs', 0, 7, 7), talgo('splay', 0, 7, 6), talgo('treap', 0, 6, 4), talgo('sg', 0, 7, 6)]
ALGO_TR = [talgo('rb', 1, 7, 5), talgo('avl', 1, 7, 5), talgo('bs', 1, 5, 4), talgo('splay', 1, 5, 4), talgo('treap', 1, 4, 3), talgo('sg', 1, 5, 4)]
ALGO_TT = [talgo('rb', 0, 14, 10, '-deep', 60), talgo('avl', 0, 15, 11, '-deep', 60), talgo('bs', 0, 9, 8, '-deep', 60), talgo('splay', 0, 9, 8, '-deep', 60), talgo('treap', 0, 7, 6, '-deep', 60), talgo('sg', 0, 9, 8, '-deep', 60)]
prop('C18', uniq(ALGO_L, ALGO_LR, ALGO_T, ALGO_TR), ['links', 'ret', 'bytes', 'throw', 'struct', 'order', 'balance', 'heap', 'rebalance', 'splay', 'clone', 'crash'], uniq(ALGO_L, ALGO_LR, ALGO_T, ALGO_TR, ALGO_LT, ALGO_TT))
PROPS['C18']['technique'] = 'exhaustive enumeration of every well-formed structure up to a size (all tree shapes, colourings, balance factors and heap orders; all list pairs) with every node algorithm executed on the real code for every node, pair of nodes, position and key, compared with a reference result'
# ---------------------------------------------------------------- complexity
def cost(name, *flags): return add('cost-' + name, 'cost.cpp', ['-DBOOST_DISABLE_ASSERTS'] + list(flags), weight=5)
COST_L = [cost('list' + t, '-DMC_KIND=0', '-DMC_SAFE=%d' % sf, '-DMC_CTS=%d' % ct) for t, sf, ct in (('', 1, 1), ('-normal', 0, 1), ('-nosize', 1, 0), ('-normal-nosize', 0, 0))]
COST_S = [cost('slist%s%s%s%s' % ('-linear' * l, '-last' * c, '-normal' * (1 - sf), '-nosize' * (1 - ct)), '-DMC_KIND=1', '-DMC_LINEAR=%d' % l, '-DMC_CACHE=%d' % c, '-DMC_SAFE=%d' % sf, '-DMC_CTS=%d' % ct) for l in (0, 1) for c in (0, 1) for ct in (0, 1) for sf in (0, 1)]
COST_T = [cost(f + t, '-DMC_KIND=2', '-DMC_TREE=%d' % TREES.index(f), '-DMC_SAFE=%d' % sf, '-DMC_CTS=%d' % ct) for f in TREES for t, sf, ct in (('', 1, 1), ('-normal-nosize', 0, 0))]
def cost_h(api, pol, sh, mk, cb, lb):
    ct, sf = int((api + pol + sh + cb + 1) % 2 or cb), (lb + mk + pol) % 2
    return cost('h-%s-%s%s%s%s%s' % (HAPI[api], POLS[pol], ['', '-sh', '-ch'][sh], '-mk' * mk, '-cb' * cb, '-lb' * lb), '-DMC_KIND=3', '-DMC_API=%d' % api, '-DMC_POL=%d' % pol, '-DMC_SH=%d' % sh, '-DMC_MK=%d' % mk, '-DMC_CB=%d' % cb, '-DMC_LB=%d' % lb, '-DMC_CTS=%d' % ct, '-DMC_SAFE=%d' % sf)
COST_H = [cost_h(a, p, s, m, c, l) for a, p, s, m, c, l in itertools.product((0, 1), (0, 1, 2, 3), (0, 1, 2), (0, 1), (0, 1), (0, 1)) if not (a == 0 and m)]
COST_HQ = [cost_h(*r) for r in ((0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 1, 0), (1, 0, 1, 1, 0, 0), (1, 1, 0, 1, 1, 1), (1, 2, 0, 1, 0, 0), (0, 2, 1, 0, 1, 1), (0, 3, 0, 0, 1, 0), (1, 3, 2, 1, 0, 1), (1, 1, 2, 0, 0, 1), (0, 1, 1, 0, 0, 0))]
prop('C22', uniq(COST_L, COST_S[1::2], [COST_S[0], COST_S[6], COST_S[8], COST_S[14]], COST_T, COST_HQ, ALGO_L, ALGO_T[:3], ['h-umset-mod-mk-sh', 'h-uset-mod', 'h-htable-pow2-lb-cb-mk', 'rb-set', 'avl-set', 'sg-set', 'rb-set-lean15', 'avl-set-lean17', 'sg-set-lean9', 'sg-set-lean-fixed9']), ['cost', 'balance'],
     uniq(COST_L, COST_S, COST_T, COST_H, ALGO_L, ALGO_LR, ALGO_LT, ALGO_T, ALGO_TR, ALGO_TT, H_TRIPLE, LEAN_T, TREE_Q))
PROPS['C22']['technique'] = 'exhaustive enumeration of structures, positions and keys up to a bound plus parametric large structures (all positions), each operation executed on the real code with counting node traits and counting functors against the documented bound'
# ---------------------------------------------------------------- several hooks per object, any-hooks
def multi(any_, a, b, d, n=3, tag='', w=6): return add('multi%s-%d-%d-%d%s' % (['', '-any', '-anymember', '-anynormal', '-anyrel'][any_], a, b, d, tag), 'multi.cpp', ['-DMC_ANY=%d' % any_, '-DMC_A=%d' % a, '-DMC_B=%d' % b, '-DMC_D=%d' % d, '-DMC_N=%d' % n], weight=w, qargs=['--seconds', '40', '--max-states', '50000'], targs=['--seconds', '1500', '--max-states', '1500000'])
def triples(n, clash, first=()):
    """deterministic greedy set of triples that contains every compatible pair of codes; pairs of `first` are covered first"""
    need = [p for p in itertools.combinations(range(n), 2) if p not in clash]; out = []
    need = sorted(need, key=lambda p: (p not in first, p))
    while need:
        a, b = need[0]
        best = max((c for c in range(n) if c not in (a, b) and tuple(sorted((a, c))) not in clash and tuple(sorted((b, c))) not in clash), key=lambda c: (tuple(sorted((a, c))) in need) + (tuple(sorted((b, c))) in need))
        t = tuple(sorted((a, b, best))); out.append(t)
        for p in itertools.combinations(t, 2):
            if p in need: need.remove(p)
    return out
_SAME = [(0, 1), (0, 2), (1, 2), (0, 17), (1, 17), (3, 4), (5, 6), (5, 7), (6, 7), (8, 9), (10, 11), (11, 12), (10, 12), (11, 13), (14, 15), (15, 16), (14, 16)]
_MT = triples(18, {(10, 13), (2, 17)}, _SAME); _AT = triples(12, set())
MULTI_Q = [multi(0, *t) for t in _MT[:26]] + [multi((1, 2, 4, 3)[i % 4], *t) for i, t in enumerate(_AT)]
MULTI_T = [multi(0, *t) for t in _MT] + [multi(k, *t) for k in (1, 2, 3, 4) for t in _AT] + [multi(k, *t, n=4, tag='-n4', w=12) for k in (1, 2) for t in _AT] + [multi(0, *t, n=4, tag='-n4', w=30) for t in ((5, 7, 14), (0, 5, 14), (3, 8, 15), (6, 9, 11), (8, 10, 16))]
prop('C20', MULTI_Q, ['order', 'ret', 'size', 'linked', 'bytes'], MULTI_T)
PROPS['C20']['technique'] = 'explicit-state exploration of the real code with every pair of hook kinds on the same objects in three containers at once, with a byte-level independence oracle'
# ---------------------------------------------------------------- footprints and interleavings of two threads
RK = ['list', 'slist-last', 'slist-linear', 'set', 'multiset-opt', 'avl', 'bs', 'splay', 'sg', 'treap', 'uset', 'umset-mk', 'uset-incr', 'uset-cb-ch', 'uset-fastmod', 'uset-lb']
RHEAVY = (11, 12, 13, 14, 15)
def race(k, auto=0, n=3, q=(), t=(), tag='', w=10): return add('race-%s%s%s' % (RK[k], '-auto' * auto, tag), 'race.cpp', ['-fsanitize=thread', '-nodefaultlibs', '-DMC_KIND=%d' % k, '-DMC_N=%d' % n, '-DMC_AUTO=%d' % auto], opt='-O0', link=['-lstdc++', '-lm', '-lgcc_s', '-lgcc', '-lc'], weight=w, qargs=['--seconds', '120'] + list(q), targs=['--seconds', '2500'] + list(t))
RACE_Q = [race(k, q=['--pb2', '1', '--pbr', '1'] if k >= 10 else [], w=30 if k in RHEAVY else 10) for k in range(16)] + [race(k, 1, 2) for k in (0, 1, 3, 4, 5, 6, 7, 9, 10, 11, 12)]
RACE_T = [race(k, n=4, tag='-n4', t=['--pb2', '3', '--pbr', '3'] if k < 10 else [], w=60) for k in range(16)] + [race(k, 1, 3, tag='-n3', w=30) for k in (0, 1, 3, 4, 5, 6, 7, 9, 10, 11, 12)]
prop('C21', RACE_Q, ['readonly', 'static', 'footprint', 'race', 'schedule'], RACE_Q + RACE_T)
PROPS['C21']['technique'] = 'explicit-state exploration; in every state every pair of operations on the real code is run under a cooperative scheduler that enumerates the interleavings of their memory accesses up to a preemption bound, plus footprint disjointness (independence) of every pair'
# ---------------------------------------------------------------- sweep of large structures
def big(name, *flags): return add('big-' + name, 'big.cpp', list(flags), weight=4, qargs=[], targs=['--deep'])
BIG_L = [big('list', '-DMC_KIND=0'), big('list-nosize', '-DMC_KIND=0', '-DMC_CTS=0')]; BIG_LU = [big('list-u8', '-DMC_KIND=0', '-DMC_U8=1')]
BIG_S = [big('slist%s%s%s' % ('-linear' * l, '-last' * c, '-nosize' * (1 - ct)), '-DMC_KIND=1', '-DMC_LINEAR=%d' % l, '-DMC_CACHE=%d' % c, '-DMC_CTS=%d' % ct) for l, c, ct in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 1))]; BIG_SU = [big('slist-u8', '-DMC_KIND=1', '-DMC_U8=1', '-DMC_CACHE=1')]
BIG_T = {f: big(f, '-DMC_KIND=2', '-DMC_TREE=%d' % TREES.index(f), '-DMC_CTS=%d' % (f in ('rb', 'bs', 'treap'))) for f in TREES}
BIG_T2 = {f: big(f + '-b', '-DMC_KIND=2', '-DMC_TREE=%d' % TREES.index(f), '-DMC_CTS=%d' % (f not in ('rb', 'bs', 'treap')), '-DMC_OPT=0', '-DMC_U8=%d' % (f in ('avl', 'splay')), '-DMC_FIXED=%d' % (f == 'sg')) for f in TREES}
def big_h(api, pol, sh, mk, cb, lb, ct=1, u8=0): return big('%s-%s%s%s%s%s%s%s' % (HAPI[api], POLS[pol], ['', '-sh', '-ch'][sh], '-mk' * mk, '-cb' * cb, '-lb' * lb, '-nosize' * (1 - ct), '-u8' * u8), '-DMC_KIND=3', '-DMC_API=%d' % api, '-DMC_POL=%d' % pol, '-DMC_SH=%d' % sh, '-DMC_MK=%d' % mk, '-DMC_CB=%d' % cb, '-DMC_LB=%d' % lb, '-DMC_CTS=%d' % ct, '-DMC_U8=%d' % u8)
BIG_H = [big_h(1, 0, 0, 1, 0, 0), big_h(1, 0, 1, 0, 1, 1), big_h(0, 0, 2, 0, 0, 0, 0), big_h(1, 2, 0, 1, 0, 0), big_h(0, 2, 1, 0, 1, 1), big_h(1, 3, 0, 1, 1, 0), big_h(0, 3, 1, 0, 0, 1, 0), big_h(1, 1, 2, 1, 1, 1)]; BIG_HU = [big_h(1, 0, 0, 1, 0, 0, 1, 1)]
BIG_HT = [big_h(a, p, s_, m, c, l, c or (a + p) % 2) for a, p, s_, m, c, l in itertools.product((0, 1), (0, 1, 2, 3), (0, 1, 2), (0, 1), (0, 1), (0, 1)) if not (a == 0 and m)]
_BT, _BT2 = list(BIG_T.values()), list(BIG_T2.values())
for _p, _q in (('C01', BIG_L), ('C02', BIG_S), ('C03', _BT), ('C04', _BT), ('C05', _BT), ('C06', [d[f] for f in ('bs', 'rb', 'avl', 'splay', 'sg') for d in (BIG_T, BIG_T2)]), ('C07', [BIG_T['treap'], BIG_T2['treap']]),
               ('C08', BIG_H), ('C09', BIG_H), ('C10', BIG_LU + BIG_SU + BIG_L + [BIG_T2[f] for f in TREES] + BIG_HU), ('C11', [BIG_L[0], BIG_S[0], BIG_T['rb'], BIG_H[0]]), ('C13', [BIG_L[1], BIG_S[0], BIG_S[3], BIG_T['rb'], BIG_T['treap'], BIG_H[0], BIG_H[1]]),
               ('C15', [BIG_L[0], BIG_S[1], BIG_S[3]] + _BT + BIG_H[:3]), ('C16', [BIG_L[1], BIG_S[0], BIG_S[2]] + _BT2 + BIG_H[3:6]), ('C23', [BIG_L[1], BIG_S[2], BIG_T['rb'], BIG_T['sg'], BIG_H[0], BIG_H[2], BIG_H[6]])):
    PROPS[_p]['quick'] = uniq(PROPS[_p]['quick'], _q)
    _all = dict(C01=BIG_L + BIG_LU, C02=BIG_S + BIG_SU, C08=BIG_HT, C09=BIG_HT).get(_p, _BT + _BT2 if _p in ('C03', 'C04', 'C05') else [])
    PROPS[_p]['thorough'] = uniq(PROPS[_p]['thorough'], _q, _all)
# normal-link hooks keep whatever bytes they held: the same explorations with uninitialised hooks
for _p, _q in (('C02', ['slist-linear-last-normal', 'slist-normal-base']), ('C03', T_NORMAL), ('C05', T_NORMAL), ('C06', [t for t in T_NORMAL if t[:2] in ('rb', 'av', 'sg', 'bs')]), ('C07', [t for t in T_NORMAL if t[:2] == 'tr']),
               ('C08', H_NORMAL), ('C09', H_NORMAL), ('C13', T_NORMAL[::2]), ('C14', T_NORMAL[1::2]), ('C15', H_NORMAL), ('C16', T_NORMAL)):
    PROPS[_p]['quick'] = uniq(PROPS[_p]['quick'], _q); PROPS[_p]['thorough'] = uniq(PROPS[_p]['thorough'], _q)
# ---------------------------------------------------------------- default functors
DEFAULTS = [add('defaults-' + n, 'defaults.cpp', ['-DMC_PART=%d' % i, '-DMC_DEPTH=6'], weight=20, targs=['--deep']) for i, n in enumerate(('ordered', 'hash-integers', 'hash-others'))]
prop('C26', DEFAULTS, ['default', 'crash', 'throw'])
PROPS['C26']['technique'] = 'explicit-state exploration: every history of insertions and erasures up to a depth on the real containers without functor options, every state compared with the order, equality and priority of the value type itself'
# ---------------------------------------------------------------- combinations of options: every pair (thorough: every triple) of option values in one configuration
def covering_r(dims, t, valid, cand=40):
    """deterministic covering array of strength t over a large product: each row is the best of `cand` pseudo-random valid completions of an uncovered tuple"""
    names = list(dims); st = [12345]; combos = list(itertools.combinations(range(len(names)), t))
    def rnd(n): st[0] = (st[0] * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1); return (st[0] >> 33) % n
    def fill(idx, vals, tries=60):
        for _ in range(tries):
            r = [dims[n][rnd(len(dims[n]))] for n in names]
            for i, v in zip(idx, vals): r[i] = v
            if valid(dict(zip(names, r))): return tuple(r)
    need = []; left = set(); rows = []
    for idx in combos:
        for vals in itertools.product(*[dims[names[i]] for i in idx]): need.append((idx, vals)); left.add((idx, vals))
    for nd in need:
        if nd not in left: continue
        c = [r for r in (fill(*nd) for _ in range(cand)) if r]
        if not c: left.discard(nd); continue
        best = max(c, key=lambda r: sum(1 for idx in combos if (idx, tuple(r[i] for i in idx)) in left))
        rows.append(dict(zip(names, best)))
        for idx in combos: left.discard((idx, tuple(best[i] for i in idx)))
    return rows
_COV = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'covering.json')   # computed once: python3 mc/configs.py
_COVC = json.load(open(_COV)) if os.path.exists(_COV) else {}
def cov(key, dims, t, valid):
    k = '%s %d' % (key, t)
    if k not in _COVC: _COVC[k] = covering_r(dims, t, valid)
    return _COVC[k]
def vseq(d): return not (d['link'] == 2 and (d['hook'] >= 3 or d['cts'] or d.get('cache') or d.get('linear'))) and not (d['hook'] == 5 and d['hh'])
def _flags(d): return ['-DMC_%s=%s' % (k.upper(), v) for k, v in d.items()]
XL = dict(link=(1, 0, 2), hook=(0, 1, 2, 3, 4, 5, 6), ptr=(0, 1), cts=(1, 0), hh=(0, 1), sizet=('std::size_t', 'unsigned char'))
XS = dict(XL, linear=(0, 1), cache=(0, 1))
XT = dict(tree=range(6), api=(0, 1, 2), link=(1, 0, 2), hook=(0, 1, 2, 3, 4, 6), ptr=(0, 1), cts=(1, 0), opt=(0, 1), kov=(0, 1), hh=(0, 1), fp=(0, 1), sizet=('std::size_t', 'unsigned short'))
XH = dict(pol=(0, 1, 2, 3), api=(1, 0, 2), sh=(0, 1, 2), lb=(0, 1), cb=(0, 1), mk=(0, 1), cts=(1, 0), link=(1, 0, 2), hook=(0, 1, 2, 3, 4, 6), ptr=(0, 1), kov=(0, 1), size=('', 'unsigned short'))
def vtree(d): return not (d['link'] == 2 and (d['hook'] >= 3 or d['cts'] or d['tree'] == 4)) and not (d['opt'] and d['tree'] not in (1, 2)) and not (d['fp'] and d['tree'] != 4) and not (d['tree'] == 4 and not d['cts'])
def vhash(d): return not (d['link'] == 2 and (d['hook'] >= 3 or d['cts'] or d['cb'] or d['lb']))
def xlist(i, d, t): return seq('x%d-list-%d' % (t, i), '-DMC_KEYS=0,0,1,2', *_flags(d))
def xslist(i, d, t): return seq('x%d-slist-%d' % (t, i), '-DMC_KEYS=0,0,1,2', '-DMC_SLIST=1', *_flags(d))
def xtree(i, d, t): na, nb = SMALL[TREES[d['tree']]]; return add('x%d-%s-%s-%d' % (t, TREES[d['tree']], APIS[d['api']], i), 'tree.cpp', ['-DMC_NA=%d' % min(na, 4), '-DMC_NB=%d' % min(nb, 3)] + _flags(d), weight=4)
def xhash(i, d, t): return hsh(nb=H_TINY[d['pol']], tag='x', **d)
X2 = {k: [f(i, d, 2) for i, d in enumerate(cov(k, dims, 2, v))] for k, f, dims, v in (('list', xlist, XL, vseq), ('slist', xslist, XS, vseq), ('tree', xtree, XT, vtree), ('hash', xhash, XH, vhash))}
X3 = {k: [f(i, d, 3) for i, d in enumerate(cov(k, dims, 3, v))] for k, f, dims, v in (('list', xlist, XL, vseq), ('slist', xslist, XS, vseq), ('tree', xtree, XT, vtree), ('hash', xhash, XH, vhash))}
XRELS = [seq('slist-rel-last', '-DMC_SLIST=1', '-DMC_PTR=1', '-DMC_CACHE=1'), seq('slist-rel-linear-last', '-DMC_SLIST=1', '-DMC_PTR=1', '-DMC_CACHE=1', '-DMC_LINEAR=1'), seq('slist-rel-last-nosize-normal', '-DMC_SLIST=1', '-DMC_PTR=1', '-DMC_CACHE=1', '-DMC_CTS=0', '-DMC_LINK=0')]
SLISTN = [seq('slist-n-%s%s%s' % ('linear' if l else 'circ', '-last' * c, '-size' if z else '-nosize'), '-DMC_SLIST=1', '-DMC_LINK=0', '-DMC_LINEAR=%d' % l, '-DMC_CACHE=%d' % c, '-DMC_CTS=%d' % z) for l in (0, 1) for c in (0, 1) for z in (0, 1)]
for _p in ('C02', 'C24'): PROPS[_p]['quick'] = uniq(PROPS[_p]['quick'], SLISTN); PROPS[_p]['thorough'] = uniq(PROPS[_p]['thorough'], SLISTN)
PROPS['C24']['quick'] = uniq(PROPS['C24']['quick'], SLIST)
T_NN = trees_small(NOSG, (0, 1), 'nn', '-DMC_LINK=0', '-DMC_CTS=0'); H_NN = [hsh(link=0, nb=H_TINY[r['pol']], tag='nn', **r) for r in covering(HDIMS, 2)]
for _p in ('C13', 'C16', 'C24'): PROPS[_p]['quick'] = uniq(PROPS[_p]['quick'], T_NN[::2] if _p == 'C13' else T_NN, H_NN); PROPS[_p]['thorough'] = uniq(PROPS[_p]['thorough'], T_NN, H_NN)
_X2, _X3 = sum(X2.values(), []), sum(X3.values(), [])
PROPS['C24']['quick'] = uniq(PROPS['C24']['quick'], _X2); PROPS['C24']['thorough'] = uniq(PROPS['C24']['thorough'], _X2, _X3)
def _isrel(n): return '-DMC_PTR=1' in C[n]['flags']
PROPS['C19']['quick'] = uniq(PROPS['C19']['quick'], XRELS, [n for n in _X2 if _isrel(n)]); PROPS['C19']['thorough'] = uniq(PROPS['C19']['thorough'], PROPS['C19']['quick'], [n for n in _X3 if _isrel(n)])
LEVEL_NOTE = ('Every state reachable within the stated bounds (number of elements, containers, key classes, alphabet of operations) of the real compiled headers is visited and every '
              'operation is executed in it and compared with a reference model; every visited state is reached again by replaying its history from a fresh construction. '
              'Assumes the small-scope bound, g++ -O1 on x86-64, and the harness model.')
if __name__ == '__main__':
    f = open(_COV, 'w'); f.write('{' + ',\n'.join(json.dumps(k) + ': [\n' + ',\n'.join(json.dumps(r) for r in v) + ']' for k, v in _COVC.items()) + '}\n'); f.close()
