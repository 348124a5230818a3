"""property id -> jobs"""
CHECKS = {}
def J(name, file, fn, nin, params, variant='20n', tparams=None, **kw):
    d = dict(name=name, file=file, fn=fn, nin=nin, params=list(params), variant=variant, **kw)
    if tparams is not None: d['tparams'] = list(tparams)
    return d
def prop(id, jobs, outside='', assume=()):
    CHECKS[id] = dict(jobs=jobs, outside=outside, assume=list(assume))

L = lambda p: p

SHAPES = [h*100 + l*10 for h in range(8) for l in range(8 - h)] + [800 + 90]
SHAPES4 = [h*100 + l*10 + 1 for h in range(6) for l in range(6 - h)] + [600 + 90 + 1]
prop('C01', [
    J('v4-parse', 'h_v4.cpp', 'h_parse4', L, range(0, 21)),
    J('v4-errors', 'h_v4.cpp', 'h_err4', L, range(0, 19)),
])
prop('C02', [
    J('v4-format', 'h_v4.cpp', 'h_fmt4', 4, [0, 1, 2]),
    J('v4-roundtrip', 'h_v4.cpp', 'h_round4', 4, [0]),
    J('v4-wide', 'h_v4.cpp', 'h_wide4', 4, [0, 1, 2, 3]),
])
prop('C03', [
    J('v6-accept', 'h_v6.cpp', 'h_acc6', L, list(range(0, 19)) + [24, 39], tparams=range(0, 63)),
    J('v6-accept-dotted', 'h_v6.cpp', 'h_acc6d', L, list(range(1, 15)) + [20], tparams=range(1, 63), cost=2),
    J('v6-any', 'h_v6.cpp', 'h_parse6', L, range(0, 9), tparams=range(0, 12), cost=3),
    J('v6-shapes', 'h_v6.cpp', 'h_gen6_0', 28, [(i % 4)*1000 + s for i, s in enumerate(SHAPES + SHAPES4)], tparams=[r*1000 + s for s in SHAPES + SHAPES4 for r in range(4)]),
    J('v6-shapes-1', 'h_v6.cpp', 'h_gen6_1', 28, [(i % 4)*1000 + s for i, s in enumerate(SHAPES + SHAPES4)], tparams=[r*1000 + s for s in SHAPES + SHAPES4 for r in range(8)]),
    J('v6-shapes-2', 'h_v6.cpp', 'h_gen6_2', 28, [r*1000 + s for s in SHAPES + SHAPES4 for r in (0, 5)], tier='thorough'),
    J('v6-scope-a', 'h_v6.cpp', 'h_sc6a', L, range(0, 20)),
    J('v6-scope-b', 'h_v6.cpp', 'h_sc6b', L, [0, 1, 2, 15, 16, 17], tparams=range(0, 20)),
    J('v6-scope-c', 'h_v6.cpp', 'h_sc6c', L, [0, 1, 2, 15, 16, 17], tparams=range(0, 20)),
])
RUNS = [0] + [f*10 + l for l in range(2, 9) for f in range(0, 9 - l)]
prop('C04', [
    J('v6-format', 'h_v6.cpp', 'h_fmt6', 16, [0, 1]),
    J('v6-format-compressed', 'h_v6.cpp', 'h_fmt6z', 16, RUNS),
    J('v6-default-format', 'h_v6.cpp', 'h_defmt6', 16, [0]),
    J('v6-format-scope', 'h_v6.cpp', 'h_fmtscope', lambda p: 17 + p, [0, 1, 3, 16], tparams=range(17)),
    J('v6-wide', 'h_v6.cpp', 'h_wide6', 16, [0, 1, 2, 3]),
])
prop('C05', [
    J('v6-roundtrip', 'h_v6.cpp', 'h_rt6', 16, [r*1000 + f*100 for r in range(4) for f in (0, 1)] + [r*1000 + 200 + z for r in range(4) for z in RUNS],
      tparams=[r*1000 + f*100 + z for r in range(4) for f in (0, 1, 2) for z in RUNS]),
    J('v6-roundtrip-scope', 'h_v6.cpp', 'h_rtscope', L, [1, 5, 16], tparams=range(1, 17)),
])
SYM = [1000]   # prefix length symbolic
P6 = [0, 1, 7, 8, 9, 31, 32, 63, 64, 65, 96, 120, 126, 127, 128]
prop('C20', [J('net4', 'h_net.cpp', 'h_inv4', 33, SYM), J('net6', 'h_net.cpp', 'h_inv6', 33, SYM),
    J('net4-default', 'h_net.cpp', 'h_dflt4', 0, [0]), J('net6-default', 'h_net.cpp', 'h_dflt6', 0, [0])])
prop('C21', [J('from4', 'h_net.cpp', 'h_from4', 42, SYM), J('from6', 'h_net.cpp', 'h_from6', 42, [0, 1, 127, 128, 129, 136, 200] + SYM)])
prop('C24', [J('super4', 'h_net.cpp', 'h_super4', 51, SYM), J('super6', 'h_net.cpp', 'h_super6', 51, P6, tparams=range(129))])
prop('C25', [J('rel4', 'h_net.cpp', 'h_rel4', 34, SYM), J('rel6', 'h_net.cpp', 'h_rel6', 34, SYM)])
prop('C27', [J('cmp4', 'h_net.cpp', 'h_cmp4', 34, SYM), J('cmp6', 'h_net.cpp', 'h_cmp6', 34, SYM),
    J('hash4', 'h_net.cpp', 'h_hash4', 17, range(2, 33), ufmul=1), J('hash6', 'h_net.cpp', 'h_hash6', 17, [64, 65, 96, 120, 126, 128], tparams=range(2, 129), ufmul=1),
    J('cmp4-11', 'h_net.cpp', 'h_cmp4', 34, SYM, variant='11n'), J('cmp6-11', 'h_net.cpp', 'h_cmp6', 34, SYM, variant='11n')])
PQ = lambda W, ps: [p*1000 + q for p in ps for q in ps if p <= q]
Q4 = [0, 1, 7, 8, 16, 24, 30, 31, 32]
Q6 = [0, 1, 63, 64, 65, 112, 120, 127, 128]
T4, T6 = range(33), [0, 1, 2, 7, 8, 9, 31, 32, 33, 48, 56, 63, 64, 65, 72, 80, 95, 96, 97, 104, 112, 119, 120, 121, 126, 127, 128]
def SJ(n):
    return lambda *a, **k: J(*a, defs=['-DONLY=%d' % n], **k)
prop('C22', [SJ(22)('hosts4', 'h_seq.cpp', 'h_hosts4', 33, SYM), SJ(22)('hosts6', 'h_seq.cpp', 'h_hosts6', 33, SYM), SJ(22)('hosts4-11', 'h_seq.cpp', 'h_hosts4', 33, SYM, variant='11n')])
prop('C23', [SJ(23)('subnets4', 'h_seq.cpp', 'h_subn4', 34, PQ(32, Q4), tparams=PQ(32, T4), prune=1), SJ(23)('subnets6', 'h_seq.cpp', 'h_subn6', 34, PQ(128, Q6), tparams=PQ(128, T6), prune=1),
    SJ(23)('errors4', 'h_seq.cpp', 'h_suberr4', 35, SYM, prune=1), SJ(23)('errors6', 'h_seq.cpp', 'h_suberr6', 35, P6, prune=1)])
prop('C26', [SJ(26)('exclude4', 'h_seq.cpp', 'h_excl4', 33, [x for x in PQ(32, Q4) if x % 1000 - x // 1000 < 15], tparams=PQ(32, T4), prune=1), SJ(26)('exclude6', 'h_seq.cpp', 'h_excl6', 33, [x for x in PQ(128, Q6) if x % 1000 - x // 1000 < 16], tparams=PQ(128, T6), prune=1),
    SJ(26)('errors4', 'h_seq.cpp', 'h_exclerr4', 35, SYM), SJ(26)('errors6', 'h_seq.cpp', 'h_exclerr6', 35, P6, prune=1)])
AIT = lambda v: [SJ(30)('arith4' + v, 'h_seq.cpp', 'h_aiter4', 24, [0], variant=v[1:] or '20n'), SJ(30)('arith6' + v, 'h_seq.cpp', 'h_aiter6', 24, [0], variant=v[1:] or '20n'),
    SJ(30)('step4' + v, 'h_seq.cpp', 'h_astep4', 16, [0], variant=v[1:] or '20n'), SJ(30)('step6' + v, 'h_seq.cpp', 'h_astep6', 16, [0], variant=v[1:] or '20n'),
    SJ(30)('reverse4' + v, 'h_seq.cpp', 'h_arev4', 24, [0], variant=v[1:] or '20n'), SJ(30)('reverse6' + v, 'h_seq.cpp', 'h_arev6', 24, [0], variant=v[1:] or '20n')]
prop('C30', AIT('') + AIT('-11n'))
prop('C31', [SJ(31)('arith4', 'h_seq.cpp', 'h_niter4', 48, PQ(32, [0, 1, 8, 24, 31, 32]), tparams=PQ(32, T4)), SJ(31)('arith6', 'h_seq.cpp', 'h_niter6', 48, [0, 1, 128, 63065, 127128], cost=5, tparams=PQ(128, T6)),
    SJ(31)('reverse4', 'h_seq.cpp', 'h_nrev4', 48, PQ(32, [0, 1, 24, 31, 32]), tparams=PQ(32, T4)), SJ(31)('reverse6', 'h_seq.cpp', 'h_nrev6', 48, [0, 1, 120127], cost=4, tparams=PQ(128, T6)),
    SJ(31)('arith4-11', 'h_seq.cpp', 'h_niter4', 48, PQ(32, [0, 24, 32]), variant='11n')])
prop('C32', [J('arith', 'h_u128.cpp', 'h_arith', 32, range(11)), J('arith-11', 'h_u128.cpp', 'h_arith', 32, range(11), variant='11n'),
    J('shift', 'h_u128.cpp', 'h_shift', 17, range(6)), J('mixed', 'h_u128.cpp', 'h_mixed', 24, range(8)), J('mixed-11', 'h_u128.cpp', 'h_mixed', 24, range(8), variant='11n'),
    J('mul', 'h_u128.cpp', 'h_mul', 32, [0, 4, 7], qtimeout=400), J('mul-wide', 'h_u128.cpp', 'h_mul', 32, [1, 2, 3, 5, 6, 8], tier='thorough', qtimeout=2000), J('mul-limbs', 'h_u128.cpp', 'h_mulfull', 32, [0], ufmul=1), J('mixmul', 'h_u128.cpp', 'h_mixmul', 24, range(5), ufmul=1)])
prop('C34', [J('read', 'h_text128.cpp', 'h_rdtext', lambda p: p % 100, [b*100 + n for b in range(3) for n in list(range(0, 9)) + [16]]), J('read-wide', 'h_text128.cpp', 'h_rdwide', lambda p: p % 100, [3, 103, 203]), J('read-16', 'h_text128.cpp', 'h_rd16', lambda p: p % 100, [3]),
    J('read-edge', 'h_text128.cpp', 'h_rdedge', lambda p: p % 100, [b*100 + n for b in range(3) for n in (1, 2, 3, 6)]),
    J('write-pow2', 'h_text128.cpp', 'h_wrpow', 16, [b*1000 + n for b in (1, 2) for n in (0, 1, 3, 4, 5, 63, 64, 65, 68)] + [2097], tparams=[b*1000 + n for b in (1, 2) for n in range(129)]),
    J('write-dec', 'h_text128.cpp', 'h_wrtext', lambda p: p % 10, [0, 10000, 20000, 30000, 40000, 50000, 40001, 40002, 40401, 40561, 50001], tparams=[0, 10000, 20000, 30000, 40000, 50000, 40001, 40002, 40401, 40561, 50001, 50002, 40004]),
    J('write-wide', 'h_text128.cpp', 'h_wrwide', 8, [0, 12, 20, 31])])
DIVN = [1, 2, 401, 402, 721, 722, 1121, 1201, 10001, 10002, 10401, 20001, 20002, 20401, 20402, 20721, 20722, 30001, 30002, 30401, 30402, 40001, 40002, 40401, 40402, 40721, 50001, 50002, 50401, 50402, 50721, 50722, 51121, 51201, 60001, 60002, 60401, 60402, 60721, 60722, 61121, 61201, 70001, 70002, 70401, 70402, 70721, 70722, 71121, 71201, 80001, 80002, 80401, 80402, 80721, 80722, 81121, 81201, 90001, 90002, 90401, 90402, 90721, 90722, 91121, 100001, 100002, 100401, 100402, 100721, 100722, 101121, 101201, 110001, 110002, 110401, 110402, 110721, 110722, 111121, 111201, 120001, 120002, 120401, 120402, 120721, 120722, 121121, 121201]
DIVD = [50001, 50241, 50561, 50801, 60001, 60241, 70001, 70241, 70561, 70801, 80001, 80241, 80561, 80801, 90001, 90241, 100001, 100241, 100561, 110801, 111201, 120001, 120241, 120561, 120801, 121201]
prop('C33', [J('dividend', 'h_div.cpp', 'h_divn', lambda p: p % 10, DIVN, tparams=[s*10000 + pos*10 + k for s in range(13) for pos in (0, 40, 72) for k in (1, 2) if (s, pos, k) not in ((4, 72, 2), (1, 72, 2), (3, 72, 2), (1, 40, 2))]
      + [s*10000 + pos*10 + 1 for s in range(13) for pos in (112, 120) if s != 2]),
   J('divisor', 'h_div.cpp', 'h_divd', lambda p: p % 10, DIVD, tparams=[s*10000 + pos*10 + k for s in range(13) for pos in (0, 24, 56, 80, 120) for k in (1,)]), J('free', 'h_div.cpp', 'h_divfree', 32, range(4), prune=1)],
   outside='dividend and divisor pairs other than the listed shapes with one or two free bytes; long division of two unconstrained 128-bit values is beyond the solver')
prop('C12', [J('conv4', 'h_addr.cpp', 'h_conv4', 24, [0, 1, 3, 4, 5, 16]), J('conv6', 'h_addr.cpp', 'h_conv6', 24, [0, 1, 8, 15, 16, 17, 24], tparams=range(25)),
    J('conv4-be', 'h_addr.cpp', 'h_conv4', 24, [4], variant='17be'), J('conv6-be', 'h_addr.cpp', 'h_conv6', 24, [16], variant='17be')])
prop('C13', [J('order4', 'h_addr.cpp', 'h_ord4', 8, [0]), J('order6', 'h_addr.cpp', 'h_ord6', lambda p: 32 + p // 100 + p % 100, [0, 1, 100, 101, 102, 303, 1616], tparams=[a*100 + b for a in range(17) for b in range(17)]),
    J('order4-11', 'h_addr.cpp', 'h_ord4', 8, [0], variant='17n'), J('order6-11', 'h_addr.cpp', 'h_ord6', lambda p: 32 + p // 100 + p % 100, [0, 100, 101, 203, 1616], tparams=[a*100 + b for a in range(17) for b in range(17)], variant='17n'),
    J('hash4', 'h_addr.cpp', 'h_hash4', 4, [0], ufmul=1), J('hash6', 'h_addr.cpp', 'h_hash6', lambda p: 16 + p, [0, 1, 2, 5, 16], tparams=range(17), ufmul=1, prune=1), J('hash6-17', 'h_addr.cpp', 'h_hash6', lambda p: 16 + p, [0, 1, 2], ufmul=1, prune=1, variant='17n')])
prop('C14', [J('class4', 'h_addr.cpp', 'h_class4', 4, [0]), J('class4-17', 'h_addr.cpp', 'h_class4', 4, [0], variant='17n')])
prop('C15', [J('class6', 'h_addr.cpp', 'h_class6', 17, [0, 1, 2]), J('class6-17', 'h_addr.cpp', 'h_class6', 17, [0], variant='17n')])
prop('C16', [J('embed', 'h_addr.cpp', 'h_embed', 16, [0]), J('embed-17', 'h_addr.cpp', 'h_embed', 16, [0], variant='17n')])
prop('C17', [J('set', 'h_addr.cpp', 'h_scope', lambda p: 16 + p % 100, [0, 1, 2, 3, 9, 10, 11, 15, 16, 17, 18, 100, 1601, 1600, 416, 417, 302], tparams=[a*100 + b for a in (0, 1, 4, 16) for b in range(20)]),
    J('order', 'h_addr.cpp', 'h_scord', lambda p: p // 100 + p % 100, [0, 1, 100, 101, 302, 303, 1616], tparams=[a*100 + b for a in range(17) for b in range(17)]),
    J('arrays', 'h_addr.cpp', 'h_scarr', 32, [0, 1, 2, 5])])
prop('C18', [J('rev4', 'h_addr.cpp', 'h_rev4', 4, [0]), J('rev6', 'h_addr.cpp', 'h_rev6', 16, [0, 3])])
prop('C28', [J('nclass4', 'h_addr.cpp', 'h_nclass4', 5, SYM), J('nclass6', 'h_addr.cpp', 'h_nclass6', 17, SYM)])
NQ = lambda pat: (lambda p: sum(map(int, [pat[min(p // 100, len(pat) - 1)]])) + p % 100)
prop('C10', [J('text4', 'h_nettext.cpp', 'h_nt4', NQ([0, 5, 1, 4, 0, 1, 20, 1, 1, 0]), list(range(0, 12)) + [100, 101, 102, 103, 104, 200, 201, 202, 203, 207, 211, 215, 216, 301, 302, 303, 401, 402, 501, 502, 601, 604, 700, 701, 702, 704, 800, 801, 803, 805, 901, 902],
      tparams=list(range(0, 16)) + [k*100 + n for k in range(1, 10) for n in range(0, 17)]),
    J('text6', 'h_nettext.cpp', 'h_nt6', NQ([0, 2, 1, 2, 2, 2, 21, 0]), list(range(0, 7)) + [100, 101, 102, 103, 104, 200, 202, 203, 301, 303, 400, 402, 500, 501, 601, 604, 700, 701, 703, 705],
      tparams=list(range(0, 9)) + [k*100 + n for k in range(1, 8) for n in range(0, 8)])])

prop('C11', [J('text4', 'h_nettext.cpp', 'h_ntout4', 4, prune=1, params=[0, 8, 9, 10, 31, 32, 1024, 2024, 132, 232, 332, 432, 532, 632, 732, 832, 932], tparams=list(range(33)) + [k * 100 + p for k in range(1, 10) for p in (0, 9, 24, 32)] + [1009, 2031]),
    J('roundtrip4', 'h_nettext.cpp', 'h_ntrt4', 4, [r * 100 + p for p in (0, 1, 8, 9, 17, 24, 30, 31, 32) for r in range(3)], tparams=[r * 100 + p for p in range(33) for r in range(3)]),
    J('roundtrip6', 'h_nettext.cpp', 'h_ntrt6', 25, [(f * 4 + r) * 10000 + p for f in range(3) for r in (0, 3) for p in (0, 1, 16, 48, 64, 99, 127, 128)] + [80000 + s * 1000 + p for s, p in ((1, 64), (3, 10), (9, 128), (2, 0))],
      tparams=[(f * 4 + r) * 10000 + p for f in range(3) for r in range(4) for p in range(129)] + [(f * 4 + r) * 10000 + s * 1000 + p for f in range(3) for r in range(2) for s in (1, 4, 9) for p in (0, 10, 64, 127, 128)]),
    J('wide6', 'h_nettext.cpp', 'h_ntwide6', 17, [0, 1032, 2032, 3032, 48], prune=1, tparams=[k * 1000 + p for k in range(4) for p in (0, 16, 32, 48)])])

ENTS = ['v4', 'v6', 'any', 'net4', 'net6', 'anynet']
def EJ(e, g): return lambda name, *a, **k: J(name + '-' + ENTS[e], *a, defs=['-DENT=%d' % e, '-DGRP=%d' % g], **k)
WAYS = {1: 'wide', 2: 'u8', 3: 'u16', 4: 'u32', 10: 'str', 11: 'wstr', 13: 'u16str', 14: 'u32str', 20: 'arr', 21: 'warr', 22: 'u8arr', 23: 'u16arr', 24: 'u32arr', 30: 'exact', 31: 'wexact', 32: 'u8exact', 33: 'u16exact', 34: 'u32exact'}
W11 = [10, 11, 13, 14, 20, 21, 23, 24]
PN = [[5, 2, 2, 4], [3, 3, 2, 2], [3, 2, 2, 2], [4, 3, 2, 3], [3, 2, 2, 2], [2, 2, 1, 2]]
TN = [[8, 5, 5, 6], [6, 5, 5, 4], [6, 5, 4, 4], [7, 5, 4, 5], [6, 4, 3, 4], [5, 4, 3, 4]]
EXN = [[0, 1, 2, 3, 8], [0, 1, 2, 3], [0, 1, 2], [0, 2, 3, 8], [0, 2, 3], [1, 2]]
def samep(e, w, N): return EXN[e] if w >= 30 else [0] + [pt*100 + N[e][pt] for pt in range(4)]
def sameg(w): return 0 if w < 30 else 1 if w < 33 else 2
n99 = lambda p: p % 100
prop('C07', sum([[EJ(e, sameg(w))(WAYS[w], 'h_uni.cpp', 'h_same%d' % w, n99, samep(e, w, PN), tparams=samep(e, w, PN) + samep(e, w, TN), prune=1) for w in WAYS] +
    [EJ(e, 3)('unicode', 'h_uni.cpp', 'h_sameu', lambda p: 4 + p % 100, [l*10000 + pt*100 + n for l in (2, 3, 4) for pt, n in ((0, 0), (0, 2), (1, 1), (3, 1))], prune=1)] for e in range(6)], [])
    + [EJ(e, 0)(WAYS[w] + '-11', 'h_uni.cpp', 'h_same%d' % w, n99, samep(e, w, PN), variant='11n', prune=1) for e in (0, 1, 3, 4) for w in W11 if w < 20 or e in (0, 4)])
def badp(e, U): return [pt*100 + n for pt in range(4) for n in range(0, (6 if pt == 0 else 4 if pt == 1 else 3) + U)]
prop('C08', sum([[EJ(e, 4)(nm, 'h_uni.cpp', 'h_bad' + x, (lambda w: lambda p: w * (p % 100))(w), [p for p in badp(e, 0) if p < 300 or e != 3], tparams=badp(e, 2), prune=1) for nm, x, w in (('u8', '8', 1), ('u16', '16', 2), ('u32', '32', 4), ('wide', 'w', 4))]
   + [EJ(e, 4)('array', 'h_uni.cpp', 'h_badarr', lambda p: 16, [1, 2, 5, 11, 12, 14, 22, 24, 30], prune=1)] for e in range(6)], [])
   + sum([[EJ(e, 4)('charu8', 'h_uni.cpp', 'h_badc', lambda p: p % 100, badp(e, 0), variant='20nu', prune=1), EJ(e, 4)('array-charu8', 'h_uni.cpp', 'h_badarr', lambda p: 16, [100, 102, 105], variant='20nu', prune=1)] for e in (0, 1, 5)], []))

def XJ(e, g): return lambda name, *a, **k: J(name + '-' + ENTS[e], *a, defs=['-DENT=%d' % e, '-DGRP=%d' % g, '-DVF_STREAM_DISCARD'], **dict(dict(variant='20', prune=1), **k))
EP = [[0, 1, 2, 3, 101, 102, 202, 301, 403], [0, 1, 2, 3, 101, 103, 202, 301, 302, 401, 402], [0, 1, 2, 102, 202, 302, 402], [0, 1, 2, 101, 102, 103, 201, 303, 401], [0, 1, 2, 101, 102, 202, 302, 401], [0, 1, 2, 102, 202, 301, 402]]
prop('C06', sum([[XJ(e, 0)('text', 'h_err.cpp', 'h_text', lambda p: 2 + p % 100, EP[e], tparams=EP[e] + [pt * 100 + n for pt in range(5) for n in range(5)]), XJ(e, 0)('text16', 'h_err.cpp', 'h_text16', lambda p: 2 + 2 * (p % 100), [1, 2, 101, 301]), XJ(e, 0)('array', 'h_err.cpp', 'h_arr', lambda p: 6, [1, 3, 12])] for e in range(6)], [])
  + [XJ(e, 0)('strict', 'h_err.cpp', 'h_textns', lambda p: 2 + p % 100, [1, 101, 102, 301]) for e in (3, 4, 5)]
  + [XJ(e, 1)('scope', 'h_err.cpp', 'h_scope', lambda p: 6 + p, [0, 1, 2, 3, 16, 17]) for e in (1, 2)] + [XJ(e, 1)('scope16', 'h_err.cpp', 'h_scope16', lambda p: 6 + 2 * p, [0, 1, 2, 17]) for e in (1, 2)] + [XJ(2, 1)('scope4', 'h_err.cpp', 'h_scope4', lambda p: 6 + p, [0, 1, 17])]
  + [XJ(e, 2)(nm + str(v), 'h_err.cpp', 'h_' + nm + str(v), 52, SYM if nm in ('from',) or v == 4 and nm != 'excl' else P6 if nm == 'super' else [64, 65, 96, 120, 126, 127, 128] if nm != 'excl' else [0, 8, 30, 32] if v == 4 else [0, 1, 64, 127, 128]) for e in (3, 4, 5) for v in (4, 6) if (e, v) not in ((3, 6), (4, 4)) for nm in ('from', 'super', 'subn', 'excl')]
  + [XJ(e, 0)('long', 'h_err.cpp', 'h_long', L, [99, 100, 101, 120] if e < 3 else [101], tparams=[99, 100, 101, 102, 103, 104, 120, 200]) for e in range(4)] + [XJ(e, 0)('long16', 'h_err.cpp', 'h_long16', lambda p: 2 * p, [104], tparams=[101, 104]) for e in (0,)]
  + [XJ(5, 2)('mixed', 'h_err.cpp', 'h_exclmix', 52, [0])])

def GJ(g): return lambda *a, **k: J(*a, defs=['-DGRP=%d' % g], **k)
AP = [0, 1, 2, 3, 4, 5, 101, 102, 103, 202, 301, 302, 401, 402, 403]
prop('C19', [GJ(19)('parse' + v, 'h_any.cpp', 'h_aparse', lambda p: 1 + p % 100, AP, tparams=AP + [6, 7, 104, 203, 303, 404], prune=1, variant=v[1:] or '20n') for v in ('', '-11n')]
  + [GJ(19)('query4' + v, 'h_any.cpp', 'h_aq4', 5, [0], variant=v[1:] or '20n') for v in ('', '-17n')] + [GJ(19)('query6' + v, 'h_any.cpp', 'h_aq6', lambda p: 16 + p, [0, 2], variant=v[1:] or '20n', prune=1) for v in ('', '-17n')]
  + [GJ(19)('make6', 'h_any.cpp', 'h_amk6', 20, [0]), GJ(19)('scope6', 'h_any.cpp', 'h_ascope6', lambda p: 18 + p, [0, 1, 2, 16, 17], prune=1), GJ(19)('hash4', 'h_any.cpp', 'h_ahash4', 4, [0], ufmul=1), GJ(19)('hash6', 'h_any.cpp', 'h_ahash6', 16, [0], ufmul=1)]
  + [GJ(19)('order' + v, 'h_any.cpp', 'h_aord', 32, range(4), variant=v[1:] or '20n') for v in ('', '-17n', '-11n')] + [GJ(19)('order-scope' + v, 'h_any.cpp', 'h_aordsc', lambda p: 32 + p // 100 + p % 100, [1, 100, 101, 203], variant=v[1:] or '20n', prune=1) for v in ('', '-17n')]
  + [GJ(19)('text4', 'h_any.cpp', 'h_atext4', 4, [0, 1, 2, 3, 4, 5, 6, 7, 9], prune=1), GJ(19)('text6', 'h_any.cpp', 'h_atext6', lambda p: 16 + p % 100, [0, 100, 200, 300, 400, 500, 600, 700, 900, 102, 202], prune=1)])
prop('C29', [GJ(29)(nm + str(v) + x, 'h_any.cpp', 'h_n' + nm + str(v), 42, SYM if nm != 'super' or v == 4 else P6, variant=x[1:] or '20n', prune=1) for nm in ('query', 'held', 'klass', 'rel', 'from', 'super') for v in (4, 6) for x in (('', '-17n') if nm in ('rel', 'held') else ('',))]
  + [GJ(29)('hash%d' % v, 'h_any.cpp', 'h_nhash%d' % v, 42, [2, 24, 32] if v == 4 else [64, 128], ufmul=1) for v in (4, 6)]
  + [GJ(30)('hosts%d' % v, 'h_any.cpp', 'h_nhosts%d' % v, 42, SYM, prune=1) for v in (4, 6)] + [GJ(30)('subnets4', 'h_any.cpp', 'h_nsubn4', 42, PQ(32, [0, 8, 24, 31, 32]), tparams=PQ(32, T4), prune=1), GJ(30)('subnets6', 'h_any.cpp', 'h_nsubn6', 42, PQ(128, [0, 64, 127, 128]), tparams=PQ(128, Q6), prune=1)]
  + [GJ(30)('suberr4', 'h_any.cpp', 'h_nsuberr4', 42, SYM, prune=1), GJ(30)('suberr6', 'h_any.cpp', 'h_nsuberr6', 42, [64, 96, 127, 128], tparams=P6, prune=1)]
  + [GJ(30)('exclude4', 'h_any.cpp', 'h_nexcl4', 42, [x for x in PQ(32, [0, 8, 26, 30, 32]) if x % 1000 - x // 1000 < 6], prune=1), GJ(30)('exclude6', 'h_any.cpp', 'h_nexcl6', 42, [x for x in PQ(128, [0, 64, 66, 126, 128]) if x % 1000 - x // 1000 < 6], prune=1)]
  + [GJ(31)('text4', 'h_any.cpp', 'h_ntext4', 42, [w * 1000 + p for w in range(7) for p in (24,)] + [0, 32], prune=1), GJ(31)('text6', 'h_any.cpp', 'h_ntext6', 42, [w * 1000 + p for w in range(7) for p in (16,)] + [0, 128, 1064, 2128], prune=1), GJ(31)('mixed', 'h_any.cpp', 'h_nexclmix', 42, [0, 1])]
  + [GJ(31)('parse' + v, 'h_any.cpp', 'h_nparse', lambda p: 1 + p % 100, [0, 1, 2, 3, 102, 103, 202, 302, 501, 502, 503, 601, 602, 603, 701, 702], prune=1, variant=v[1:] or '20n') for v in ('', '-11n')])

SAFE = ['MEM', 'TRAP', 'UB', 'DIV0', 'UNREACHABLE', 'LIBASSERT', 'STDASSERT', 'ABORT', 'TERMINATE', 'ESCAPE']
# the same harness with the sanitizer's checks compiled in: only memory accesses, traps and other undefined operations are asked about
def ub(id, keep, every=1, cap=None, **over):
    out = []
    for j in CHECKS[id]['jobs']:
        if j.get('tier') == 'thorough' or not keep(j): continue
        d = dict(j); ps = d['params']
        d['variant'] = over.get('variant', d['variant']) + '+ub'; d['kinds'] = SAFE; d['name'] = over.get('prefix', 'ub-') + d['name']
        if 'params' in over: d['params'] = list(over['params'])
        else: d['tparams'] = d.get('tparams', ps); d['params'] = ps[::every][:cap]
        out.append(d)
    return out
named = lambda *ns: (lambda j: any(j['name'] == n or j['name'].startswith(n + '-') for n in ns))
def RJ(e, nm, fn, w, ps, tps, v='20n+ub'): return EJ(e, 5)(nm, 'h_uni.cpp', fn, lambda p: w * (p % 100), ps, tparams=tps, variant=v, kinds=SAFE, prune=1)
RAW = [list(range(0, 11)) + [16, 40], [0, 1, 2, 3, 4, 5, 6, 8], [0, 1, 2, 3, 4, 5, 6], list(range(0, 8)), [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5]]
PATN = [102, 103, 203, 302]
prop('C09', sum([[RJ(e, 'raw', 'h_raw', 1, RAW[e] + PATN, RAW[e] + PATN + [12, 20, 24] + [104, 205, 304]), RJ(e, 'raw8', 'h_raw8', 1, [1, 2, 3, 4, 102], range(7)), RJ(e, 'raw16', 'h_raw16', 2, [1, 2, 3, 102], range(6)), RJ(e, 'raww', 'h_raww', 4, [1, 2, 102], range(5)),
    EJ(e, 5)('rawarr', 'h_uni.cpp', 'h_rawarr', lambda p: {1: 1, 4: 4, 13: 6, 22: 8}[p], [1, 4, 13, 22], variant='20n+ub', kinds=SAFE, prune=1)] for e in range(6)], [])
  + sum([[RJ(e, 'raw-11', 'h_raw', 1, [0, 1, 3, 4, 102, 302], range(8), '11n+ub'), RJ(e, 'raw-nu', 'h_raw', 1, [1, 2, 3, 102], range(7), '20nu+ub')] for e in (0, 1, 3, 4)], [])
  + ub('C03', lambda j: j['name'].startswith('v6-scope'), every=2) + ub('C10', named('text4'), params=[103, 202, 207, 216, 302, 402, 501, 604, 702, 801, 803, 902]) + ub('C10', named('text6'), params=[203, 402, 502, 701])
  + ub('C08', lambda j: j['name'].startswith('array')) + ub('C06', named('text', 'text16', 'array'), every=3) + ub('C06', named('long', 'long16')))
prop('C40', ub('C20', lambda j: 1) + ub('C21', lambda j: 1) + ub('C24', lambda j: 1) + ub('C25', lambda j: 1) + ub('C27', lambda j: j['variant'] == '20n') + ub('C22', lambda j: 1) + ub('C23', lambda j: 1, every=6) + ub('C26', lambda j: 1, every=6)
  + ub('C30', lambda j: j['variant'] == '20n') + ub('C31', lambda j: j['variant'] == '20n', every=2) + ub('C32', named('arith', 'shift', 'mixed')) + ub('C33', lambda j: 1, every=9) + ub('C34', lambda j: 1, every=4)
  + ub('C12', lambda j: 1) + ub('C13', lambda j: j['variant'] == '20n') + ub('C14', lambda j: 1) + ub('C15', lambda j: 1) + ub('C16', lambda j: 1) + ub('C17', lambda j: 1, every=2) + ub('C18', lambda j: 1) + ub('C28', lambda j: 1)
  + ub('C02', lambda j: 1) + ub('C04', lambda j: 1, every=3) + ub('C11', named('text4', 'wide6'), every=3) + ub('C19', named('query4', 'query6', 'make6', 'text4', 'text6'), every=2) + ub('C29', named('query4', 'query6', 'hosts4', 'hosts6', 'held4', 'held6', 'klass4', 'klass6')))

for_v = lambda v: v[1:] or '20'
prop('C36', sum([[J('optional-int' + v, 'h_util.cpp', 'h_optint', lambda p: 2 * p, [2, 4], tparams=[1, 2, 3, 4, 5, 6], variant=for_v(v)), J('optional-address' + v, 'h_util.cpp', 'h_optaddr', lambda p: 2 * p, [3], variant=for_v(v)), J('optional-network' + v, 'h_util.cpp', 'h_optnet', lambda p: 2 * p, [3], variant=for_v(v)),
    J('bytes' + v, 'h_util.cpp', 'h_bytes', lambda p: 2 * p + 8, [1, 4, 7, 16], variant=for_v(v)), J('bytes0' + v, 'h_util.cpp', 'h_bytes0', 8, [0], variant=for_v(v)),
    J('fixed' + v, 'h_util.cpp', 'h_fixed', lambda p: {1: 1, 5: 5, 16: 16}.get(p, 3) + 9, [1, 3, 5, 16, 23, 33, 43] + [53] * (v == ''), variant=for_v(v), prune=1), J('fixed-pair' + v, 'h_util.cpp', 'h_fixed2', lambda p: {33: 6, 25: 7, 52: 7, 3: 6, 16: 32}.get(p, 16), [33, 25, 52, 3, 16, 8], variant=for_v(v), prune=1)] for v in ('', '-17n')], [])
  + [J('fixed-hash', 'h_util.cpp', 'h_fixhash', 5, range(6), ufmul=1, prune=1)])

# the same harness, with the same independent oracle, built in other configurations: equal to one oracle in each, hence equal to each other
def cfg(id, fns, variants, params=None, every=1, cap=None, **over):
    out = []
    for j in CHECKS[id]['jobs']:
        if j.get('tier') == 'thorough' or j['variant'] != '20n' or j['name'] not in fns: continue
        for v in variants:
            d = dict(j, **over); ps = d['params']; d['variant'] = v; d['name'] = j['name'] + '@' + v
            d['tparams'] = list(d.get('tparams', ps))
            d['params'] = list(params) if params is not None else ps[::every][:cap]
            if d['tparams'] and not set(d['params']) <= set(d['tparams']): d['tparams'] = d['tparams'] + [x for x in d['params'] if x not in d['tparams']]
            if len(d['tparams']) > 4 * len(d['params']) + 12: d['tparams'] = sorted(set(d['params']) | set(d['tparams'][::max(1, len(d['tparams']) // (3 * len(d['params']) + 8))]))
            out.append(d)
    return out
OLD = ['11n', '14n', '17n']
prop('C37', cfg('C01', ['v4-parse', 'v4-errors'], OLD + ['20nu', '20ns'], [0, 1, 6, 7, 8, 11, 15, 16]) + cfg('C01', ['v4-parse'], ['20', '11'], [7, 9, 15])
  + cfg('C02', ['v4-format', 'v4-roundtrip', 'v4-wide'], ['11n', '14n', '17n', '20'], [0, 1])
  + cfg('C03', ['v6-any'], OLD + ['20ns', '20s3', '20nu', '11ns'], [0, 2, 3, 5]) + cfg('C03', ['v6-accept'], ['11n', '17n', '20ns'], [3, 7, 9]) + cfg('C03', ['v6-shapes'], ['11n', '17n', '20ns', '20'], [0, 40, 321, 890, 1401])
  + cfg('C03', ['v6-scope-a'], ['11n', '14n', '17n', '20nu', '20ns', '11ns', '20s3'], [0, 1, 2, 3, 4, 5, 16, 17]) + cfg('C03', ['v6-scope-a'], ['17s32'], [1, 16, 17, 31, 32, 33, 34])
  + cfg('C04', ['v6-format'], ['11n', '14n', '17n', '20ns', '20'], [0]) + cfg('C04', ['v6-format-compressed'], ['11n', '17n', '20ns'], [26, 43, 8]) + cfg('C04', ['v6-format-compressed'], ['11n'], [12]) + cfg('C04', ['v6-wide'], ['11n', '17n'], [1, 2]) + cfg('C04', ['v6-format-scope'], ['11n', '20s3'], [0, 1]) + cfg('C04', ['v6-format-scope'], ['17s32'], [17], tier='thorough')
  + cfg('C10', ['text4'], OLD + ['20nu'], [3, 5, 103, 203, 302, 402, 501, 702, 901]) + cfg('C10', ['text6'], OLD + ['20ns'], [2, 203, 502, 703]) + cfg('C10', ['text6'], ['11n'], [103, 402]) + cfg('C10', ['text6'], ['20nu'], [1, 203])
  + cfg('C11', ['text4', 'roundtrip4'], ['11n', '17n'], [9, 31]) + cfg('C11', ['roundtrip6'], ['11n', '17n', '20ns'], [64, 10127])
  + cfg('C12', ['conv4'], OLD, [0, 4]) + cfg('C12', ['conv6'], OLD, [0, 16, 17])
  + cfg('C13', ['order4'], ['11n', '14n', '20']) + cfg('C13', ['order6'], ['11n', '14n', '20'], [0, 101, 203]) + cfg('C13', ['order6'], ['20ns'], [0])
  + cfg('C14', ['class4'], ['20']) + cfg('C15', ['class6'], ['20'], [0, 1]) + cfg('C15', ['class6'], ['20ns'], [0]) + cfg('C16', ['embed'], ['20ns', '20']) + cfg('C17', ['set'], OLD + ['20nu'], [0, 1, 3, 10, 17, 1601]) + cfg('C17', ['set'], ['20s3'], [0, 1, 2, 3, 4]) + cfg('C17', ['set'], ['17s32'], [17, 33]) + cfg('C18', ['rev4', 'rev6'], OLD, [0])
  + cfg('C20', ['net4', 'net6'], OLD + ['20']) + cfg('C21', ['from4'], OLD + ['20']) + cfg('C21', ['from6'], OLD + ['20'], SYM) + cfg('C24', ['super4'], OLD + ['20']) + cfg('C24', ['super6'], ['11n', '17n'], [0, 64, 127]) + cfg('C25', ['rel4'], OLD + ['20']) + cfg('C25', ['rel6'], ['11n'])
  + cfg('C22', ['hosts4'], OLD + ['20']) + cfg('C22', ['hosts6'], ['11n']) + cfg('C23', ['subnets4'], OLD, [8016, 31032, 32]) + cfg('C23', ['subnets6'], ['11n', '17n'], [64065, 128]) + cfg('C26', ['exclude4'], ['11n', '17n'], [24030, 8, 32032]) + cfg('C26', ['exclude6'], ['11n'], [120126, 127128])
  + cfg('C27', ['cmp4', 'cmp6'], ['14n', '17n', '20']) + cfg('C28', ['nclass4', 'nclass6'], ['17n', '20'])
  + cfg('C32', ['arith', 'shift', 'mixed'], ['14n', '17n', '20'], every=2) + cfg('C33', ['free'], ['11n', '17n']) + cfg('C33', ['divisor'], ['11n', '17n'], [60001, 100001]) + cfg('C34', ['read'], OLD, [3, 104, 203]) + cfg('C34', ['read'], ['11n'], [7]) + cfg('C34', ['write-dec'], OLD, [0, 10000, 40001])
  + cfg('C19', ['parse'], ['14n', '17n', '20nu', '20ns'], [3, 102, 202]) + cfg('C29', ['parse'], ['14n', '17n', '20nu', '20ns'], [3, 103, 202]) + cfg('C29', ['from4', 'from6', 'rel4'], ['11n', '20']))

def TJ(e): return lambda name, *a, **k: J(name + '-' + (ENTS + ['u128'])[e], *a, **dict(dict(variant='20', prune=1, defs=['-DENT=%d' % e]), **k))
O4 = [r * 100 + o for r, o in ((0, 3), (1, 13), (2, 20), (0, 31))]
O6 = [r * 10000 + z * 100 + o for r, z, o in ((0, 0, 0), (1, 23, 11), (2, 17, 12), (3, 44, 33), (0, 0, 3), (1, 8, 2), (2, 62, 21), (3, 33, 30))]
prop('C38', sum([[TJ(e)('out4', 'h_stream.cpp', 'h_out4', 4, O4, tparams=[r * 100 + o for r in range(3) for o in (0, 1, 2, 3, 13, 20, 31, 33)])] for e in (0, 2, 3, 5)], [])
  + [TJ(e)('out6', 'h_stream.cpp', 'h_out6', 16, O6, tparams=O6 + [r * 10000 + z * 100 + o for r in range(4) for z in (0, 12, 53) for o in (0, 11, 22, 33, 3, 12)]) for e in (1, 2, 4, 5)]
  + [TJ(e)('out-scope', 'h_stream.cpp', 'h_outscope', lambda p: p, [0, 1, 3, 16]) for e in (1, 2)]
  + [TJ(e)('in', 'h_stream.cpp', 'h_in', lambda p: p % 100, ps) for e, ps in ((0, [0, 1, 2, 7, 9, 102, 103, 202, 1102]), (1, [0, 1, 2, 3, 102, 103, 202, 1002]), (2, [0, 2, 4, 102, 202, 1102]), (3, [0, 2, 3, 101, 102, 103, 202, 1102, 2102]), (4, [0, 2, 101, 102, 103, 202, 1102, 2102]), (5, [0, 2, 101, 102, 202, 1101, 2102]))]
  + [TJ(e)('in-strict', 'h_stream.cpp', 'h_instrict', lambda p: p, [1, 2, 3]) for e in (3, 4, 5)]
  + [TJ(6)('out', 'h_stream.cpp', 'h_outu', 8, [0, 1, 2, 21, 1001] + [b * 100 + o for b in (1, 2) for o in (0, 1, 2, 11, 21, 1001, 1011)]), TJ(6)('in', 'h_stream.cpp', 'h_inu', lambda p: p % 100, [b * 100 + n for b in range(3) for n in (0, 1, 2, 3, 5)])])
def LJ(e): return lambda name, *a, **k: J(name + '-' + ENTS[e], *a, **dict(dict(variant='17', prune=1, defs=['-DENT=%d' % e, '-DVF_STREAM_DISCARD']), **k))
LP = [[1, 3, 7, 8, 101, 102, 103, 201, 202, 302, 16, 99], [1, 2, 3, 101, 102, 201, 202, 301, 303, 401, 402, 403, 404, 99], [1, 2, 7, 102, 201, 301, 402, 403, 404], [1, 2, 101, 102, 201, 202, 402, 404, 99], [1, 2, 101, 103, 201, 202, 203, 302, 402, 403], [1, 2, 101, 102, 201, 202, 303, 402, 403]]
LW = [[2, 102, 201, 202], [2, 102, 402, 403], [2, 102, 402, 403], [2, 102, 201, 202], [2, 103, 202, 203], [2, 102, 201, 402]]
prop('C39', sum([[LJ(e)('char' + v, 'h_lit.cpp', 'h_lit', n99, LP[e] if v != '-17n' else LW[e], variant=v[1:] or '17') for v in ('', '-11', '-17n')]
  + [LJ(e)(nm + v, 'h_lit.cpp', 'h_' + fn, (lambda w: lambda p: w * (p % 100))(w), LW[e], variant=v[1:] or '17') for v in (('', '-11') if e in (0, 3, 5) else ('',)) for nm, fn, w in (('wide', 'litw', 4), ('u16', 'lit16', 2), ('u32', 'lit32', 4))]
  + [LJ(e)('compile-time', 'h_lit.cpp', 'h_lit20', 0, [0], variant='20n')] for e in range(6)], []) + [LJ(0)('integer' + v, 'h_lit.cpp', 'h_litint', 4, [0], variant=v[1:] or '17') for v in ('', '-11')])

prop('C35', sum([[J('from-double' + v, 'h_float.cpp', 'h_from_double', 8, [0], variant=w), J('from-float' + v, 'h_float.cpp', 'h_from_float', 4, [0], variant=w),
    J('to-double' + v, 'h_float.cpp', 'h_to_double', 16, range(129), variant=w), J('to-float' + v, 'h_float.cpp', 'h_to_float', 16, list(range(0, 129, 8)) + [1, 23, 25, 26, 53, 54, 63, 65, 76, 77, 87, 89], tparams=range(129), variant=w),
    J('round-trip' + v, 'h_float.cpp', 'h_round', 8, list(range(0, 76, 5)), tparams=range(76), variant=w)] for v, w in (('', '20n'), ('-11', '11n'))], []),
  outside='long double (converted through double by the library); NaN; values at or above 2^128 or at or below -1; rounding modes other than the default')
