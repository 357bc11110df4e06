"""The harness of every claimed property: what is compiled, under which bounds."""
CHECKS = {}
def check(pid, **kw):
    CHECKS[pid] = kw


_big = {
 'def': '{-10,50,0,50,8046124,500777,4502199,3500051,300033},{-10,50,0,50,8046124,500777,0,3500051,300033},{0,100,0,0,8046124,500777,4502199,3500051,300033}',
 'huge': '{100,100,100,100,2147483647,1000000777,2000000099,2000000051,2000000001},{-100,100,100,-20,2147483647,1000000777,2000000099,2000000051,2000000001}',
 'clamp': '{-10,250,101,-300,8046124,500777,4502199,3500051,300033},{2147483647,-2147483647-1,0,0,8046124,500777,1502199,3500051,300033},{100,100,100,100,8046124,500777,0,3500051,300033}',
 'neg': '{-100,50,30,50,8046124,500777,4502199,3500051,300033},{0,0,0,0,8046124,500777,4502199,3500051,300033},{0,100,-100,-100,8046124,500777,502199,3500051,300033}',
}
_b = "any bids (every double in [-1e6,1e6]), running flags, map sizes up to 2^48; "
_ov = ['vomm_predict', 'proc_get_memstat', 'preload_readahead']
check('C01', level='other', what='', base=dict(harness='c01_budget.c', override=_ov, unwind=8),
      variants=[dict(name='big_' + k, defs=['-DPROP=1', '-DNE=3', '-DBIG=' + v], bounds='3 programs, 3 maps; ' + _b + 'percentages and memory amounts: ' + v) for k, v in _big.items()] + [
        dict(name='small2', defs=['-DPROP=1', '-DNE=2', '-DMAXMEM=1023'], bounds='2 programs, 2 maps; ' + _b + 'every int percentage; every memory amount up to 1023 kB'),
        dict(name='small3', thorough=True, defs=['-DPROP=1', '-DNE=3', '-DMAXMEM=1023'], bounds='3 programs, 3 maps; as small2'),
        dict(name='small2_wide', thorough=True, defs=['-DPROP=1', '-DNE=2', '-DMAXMEM=6399'], bounds='as small2, amounts up to 6399 kB'),
      ])
_c = '{-10,50,0,50,8046124,500777,4502199,3500051,300033}'
check('C02', level='other', what='', base=dict(harness='c01_budget.c', override=_ov, unwind=8),
      variants=[dict(name='own', defs=['-DPROP=2', '-DNE=3', '-DBIG=' + _c], bounds='3 programs with one map each; ' + _b + 'one memory situation'),
                dict(name='shared', defs=['-DPROP=2', '-DNE=3', '-DSHARED', '-DBIG=' + _c], bounds='3 programs sharing 3 maps pairwise; bids are multiples of 1/8 in [-16,16)'),
                dict(name='own4', thorough=True, defs=['-DPROP=2', '-DNE=4', '-DBIG=' + _c], bounds='4 programs with one map each; ' + _b),
      ])
_ra = dict(harness='c03_readahead.c', unwind=16)
def ra(name, mode, nf, strat, off, **k):
    return dict(name=name, defs=['-DMODE=%d' % mode, '-DNF=%d' % nf, '-DSTRAT=%s' % strat, '-DOFFMAX=(%s)' % off],
                bounds='%d maps, sort strategy %s, offsets and lengths in [0, %s]' % (nf, strat, off), **k)
check('C03', level='other', what='', base=_ra, variants=[
    ra('cover_none', 1, 3, 'SORT_NONE', '1LL<<40'), ra('cover_path', 1, 3, 'SORT_PATH', '1LL<<20'), ra('cover_path_wide', 1, 3, 'SORT_PATH', '1LL<<40', thorough=True),
    ra('cover_block', 1, 3, 'SORT_BLOCK', '1LL<<20'),
    ra('order_none', 2, 3, 'SORT_NONE', '0'), ra('order_path', 2, 3, 'SORT_PATH', '0'), ra('order_inode', 2, 3, 'SORT_INODE', '0'), ra('order_block', 2, 3, 'SORT_BLOCK', '0'),
    ra('cover_path4', 1, 4, 'SORT_PATH', '1LL<<40', thorough=True), ra('cover_block4', 1, 4, 'SORT_BLOCK', '1LL<<20', thorough=True),
    ])
check('C04', level='other', what='', base=_ra, variants=[ra('par', 3, 3, 'SORT_PATH', '3'), ra('par4', 3, 4, 'SORT_PATH', '3', thorough=True)])
check('C05', level='other', what='', base=_ra, variants=[ra('fault_path', 4, 3, 'SORT_PATH', '1LL<<40'), ra('fault_block', 4, 3, 'SORT_BLOCK', '1LL<<40')])
check('C07', level='other', what='', base=dict(harness='c07_proc.c', unwind=18), variants=[
    dict(name='any12', defs=['-DLL=12'], bounds='2 directory entries of up to 4 arbitrary bytes, 1 link of up to 12 arbitrary bytes or an error, every prefix list of up to 2 prefixes from a pool'), dict(name='any14', defs=['-DLL=14'], thorough=True, bounds='links of up to 14 arbitrary bytes'), dict(name='text', defs=['-DLL=26', '-DTEXT'], unwind=30, bounds='links from a pool of suffix combinations (prelink, deleted), cut at any length')])


_mk = ['"/x.#prelink#.", "/x.#prelink#.Ab", "/x (deleted)", "/x(deleted)y"', '"/x", "/x y", "/x .#prelink#", "/x (delete", "[x]", ""', '"/x.#prelink#.(deleted)", "/x(deleted).#prelink#.Z", "/x.#prelink#.1 (deleted)"']
check('C08', level='other', what='', base=dict(harness='c08_maps.c', unwind=24, unwindset=['vp_fgets:102', 'vp_sscanf:70']), variants=[
    dict(name='any12', defs=['-DPL=12', '-DVP_STRCAP=16', '-DNL=1', '-DPROP=8', '-DUSE=3'], bounds='one line, every field value, path of up to 12 arbitrary bytes without newline')] + [
    dict(name='text%d' % i, defs=['-DPL=24', '-DVP_STRCAP=26', '-DTEXT=' + t, '-DNL=1', '-DPROP=8', '-DUSE=3'], unwind=36, bounds='one line, every field value, path from ' + t) for i, t in enumerate(_mk)])
_c9 = lambda n, u: ['-DPL=2', '-DVP_STRCAP=4', '-DNL=%d' % n, '-DPROP=9', '-DUSE=%d' % u]
check('C09', level='other', what='', base=dict(harness='c08_maps.c', unwind=16, unwindset=['vp_fgets:102', 'strcmp:6', 'vp_text_s:30', 'vp_sscanf:70', 'vp_scannum:20']), variants=[
    dict(name='size3', defs=_c9(3, 0), thorough=True), dict(name='table_only', defs=_c9(2, 1)), dict(name='records2', defs=_c9(2, 3), thorough=True), dict(name='size2', defs=_c9(2, 0)), dict(name='records1', defs=_c9(1, 3)), dict(name='records3', defs=_c9(3, 3), thorough=True)])
check('C14', level='other', what='', base=dict(harness='c14_markov.c', unwind=8), variants=[
    dict(name='step', defs=['-DMODE=1'], bounds='one change of one pair; every weight up to 2^30, every time up to 2^30 s'),
    dict(name='mean', defs=['-DMODE=2', '-DWMAX=3', '-DDMAX=15'], bounds='counts up to 3, times up to 15 s'),
    dict(name='mean_wide', thorough=True, defs=['-DMODE=2', '-DWMAX=7', '-DDMAX=63'], bounds='counts up to 7, times up to 63 s')])
check('C15', level='other', what='', base=dict(harness='c14_markov.c', unwind=8), variants=[
    dict(name='damaged', defs=['-DMODE=4', '-DDMAX=7'], bounds='any recorded times up to 7 s, consistent or not'),
    dict(name='corr', defs=['-DMODE=3', '-DDMAX=7'], bounds='times up to 7 s'), dict(name='corr15', thorough=True, defs=['-DMODE=3', '-DDMAX=15'], bounds='times up to 15 s'), dict(name='corr31', thorough=True, defs=['-DMODE=3', '-DDMAX=31'], bounds='times up to 31 s')])
_spy = dict(harness='c27_spy.c', unwind=18, override=['proc_foreach', 'proc_get_maps', 'vomm_update'], cbmc=['--paths', 'lifo'])
_pb = 'every set of running programs in every scan (explored path by path); '
check('C27', level='other', what='', base=_spy, jobs=8, variants=[
    dict(name='k2', defs=['-DK=2', '-DNE=2', '-DNK=2', '-DVOMM=1'], bounds=_pb + '2 known programs, 2 scan/update cycles of 20 s, every prior count and running time up to 2^28'),
    dict(name='k2odd', defs=['-DK=2', '-DNE=2', '-DNK=2', '-DCYCLE=5', '-DDBL=0'], bounds=_pb + 'as k2 with a cycle of 5 s, the first program in up to 2 processes'),
    dict(name='new1', defs=['-DK=2', '-DNE=1', '-DNK=0'], bounds=_pb + '1 unknown program of every size, every minimum size, 2 cycles'),
    dict(name='new1k3', thorough=True, defs=['-DK=3', '-DNE=1', '-DNK=0'], bounds=_pb + 'as new1, 3 cycles'),
    dict(name='new2', defs=['-DK=2', '-DNE=2', '-DNK=0', '-DVOMM=1', '-DSZPICK'], bounds=_pb + '2 unknown programs with sizes none, one byte below or at the minimum, 2 cycles'),
    dict(name='mixed', defs=['-DK=2', '-DNE=2', '-DNK=1', '-DSZPICK', '-DDBL=1'], bounds=_pb + '1 known and 1 unknown program, 2 cycles'),
    dict(name='k3', defs=['-DK=3', '-DNE=2', '-DNK=2'], bounds=_pb + '3 cycles', thorough=True),
    dict(name='three', defs=['-DK=2', '-DNE=3', '-DNK=2', '-DSZPICK', '-DVOMM=1'], bounds=_pb + '2 known programs, 1 unknown, 2 cycles', thorough=True),
    ])
_vm = dict(harness='c18_vomm.c', unwind=20, cbmc=['--paths', 'lifo'])
_vb = 'every sequence of launches (explored path by path); '
check('C18', level='other', what='', base=_vm, jobs=8, variants=[
    dict(name='two6', defs=['-DMODE=1', '-DNE=2', '-DK=6', '-DVP_HTCAP=3'], bounds=_vb + '6 launches of 2 programs'),
    dict(name='three4', defs=['-DMODE=1', '-DNE=3', '-DK=4', '-DVP_HTCAP=4'], bounds=_vb + '4 launches of 3 programs'),
    dict(name='one8', defs=['-DMODE=1', '-DNE=1', '-DK=8', '-DVP_HTCAP=3'], bounds='8 launches of one program'),
    dict(name='two8', thorough=True, defs=['-DMODE=1', '-DNE=2', '-DK=8', '-DVP_HTCAP=3'], bounds=_vb + '8 launches of 2 programs'),
    ])
check('C19', level='other', what='', base=_vm, jobs=8, variants=[
*[dict(name='any_' + n, thorough=t, unwind=30, defs=['-DMODE=2', '-DNE=2', '-DVP_HTCAP=7', '-DVP_OWN_LIBM'] + d, bounds='a loaded tree of 5 nodes with counts 0, 1 or 10^9 each, any set of running programs, ' + b) for n, t, d, b in
      (('none', True, [], 'no launch yet'), ('one', False, ['-DH1=0'], 'after 1 launch'), ('two', True, ['-DH1=0', '-DH2=1'], 'after 2 launches'))],
    dict(name='doc', defs=['-DMODE=3', '-DNE=2', '-DK=4', '-DVP_HTCAP=3', '-DVP_OWN_LIBM'], unwind=30, bounds=_vb + '4 launches of 2 programs'),
    ])
check('C20', level='other', what='', base=_vm, jobs=8, variants=[
    dict(name='del2', defs=['-DMODE=4', '-DNE=2', '-DK=3', '-DVP_HTCAP=3'], bounds=_vb + '3 launches or deletions of 2 programs'),
    dict(name='del3', thorough=True, defs=['-DMODE=4', '-DNE=3', '-DK=3', '-DVP_HTCAP=4'], bounds=_vb + '3 launches or deletions of 3 programs'),
    dict(name='del2k4', thorough=True, defs=['-DMODE=4', '-DNE=2', '-DK=4', '-DVP_HTCAP=3'], bounds=_vb + '4 launches or deletions of 2 programs'),
    ])
_io = dict(harness='c21_io.c', unwind=200, cbmc=['--paths', 'lifo'], override=['proc_foreach', 'proc_get_memstat'])
_d21 = lambda v, m, b, *o: ['-DMODE=1', '-DVOMM=%d' % v, '-DMARKOV=%d' % m, '-DBAD=%d' % b, '-DVP_GSCAP=160'] + list(o)
_masks = ['15,9', '6,7', '0,1', '2,4', '8,3', '12,5', '10,11', '13,14']
check('C21', level='other', what='', base=_io, jobs=8, variants=[
    *[dict(name='core%d' % i, defs=_d21(0, 1, 1, '-DMASKS=' + m), bounds='2 programs, 2 maps, 2 of the 16 relations between them (%s), one pair with every count and time, map sizes up to 2^46; every set of running programs at load' % m, **({} if i < 3 else dict(thorough=True))) for i, m in enumerate(_masks)],
    dict(name='ranges', defs=_d21(0, 0, 0, '-DMASKS=15,9,7', '-DSAMEPATH', '-DPATHS="/a","/b","/m","/m"'), bounds='as core without a pair, two ranges of one file'),
    dict(name='one', defs=_d21(0, 0, 1, '-DNM=1', '-DMASKS=0,1,2,3'), bounds='2 programs, one map of every range in 2^46'),
    dict(name='tree', defs=_d21(2, 0, 0, '-DNM=1', '-DMASKS=1'), bounds='sequence model after 2 launches of 2 programs'),
    dict(name='tree3', thorough=True, defs=_d21(3, 0, 0, '-DNM=1', '-DMASKS=0'), bounds='sequence model after 3 launches of 2 programs'),
    ])
check('C22', level='other', what='', base=_io, jobs=8, variants=[
    dict(name='fault%d_%d' % (m, i), defs=['-DMODE=2', '-DVP_GSCAP=160', '-DMODEL=%d' % m, '-DFAT=%d' % (8 * i), '-DNCALL=%d' % n], bounds='a model of every record type; a failure of any one system call') for m, n in ((0, 24), (1, 40)) for i in range(n // 8)
    ])

_tk = dict(harness='c25_tick.c', unwind=18, cbmc=['--paths', 'lifo'], override=['preload_on_battery', 'preload_spy_scan', 'preload_spy_update_model', 'preload_prophet_predict', 'preload_cleanup_invalid_entries', 'preload_state_write_file'])
_tb = 'every combination of enabled parts, battery state, failing saves; '
check('C25', level='other', what='', base=_tk, jobs=8, variants=[
    *[dict(name='c%d' % c, defs=['-DK=4', '-DCYC=%d' % c, '-DAUTO=3600', '-DFILE_GIVEN=%d' % (c & 1)], bounds=_tb + '4 timer events, cycle of %d s' % c) for c in (20, 5, 1)],
    dict(name='auto', defs=['-DK=4', '-DCYC=20', '-DAUTO=10', '-DFILE_GIVEN=1'], bounds=_tb + '4 timer events, autosave every 10 s'),
    dict(name='auto7', defs=['-DK=5', '-DCYC=5', '-DAUTO=7', '-DFILE_GIVEN=1'], bounds=_tb + '5 timer events, autosave every 7 s'),
    dict(name='reload', thorough=True, defs=['-DK=3', '-DCYC=20,7', '-DAUTO=25', '-DRELOAD', '-DFILE_GIVEN=0'], bounds=_tb + '3 timer events, the configuration changes in between'),
    ])
check('C28', level='other', what='', base=dict(harness='c28_time.c', unwind=10), variants=[
    *[dict(name='k2_%d' % b, defs=['-DK=2', '-DNSV=999999999', '-DBOOT=%d' % b], cbmc=['--paths', 'lifo'], bounds='2 calls in any order, every number of seconds up to 2^23, failures, kernel %s CLOCK_BOOTTIME' % ('with' if b else 'without')) for b in (1, 0)],
    dict(name='frac', defs=['-DK=1', '-DBOOT=1'], bounds='1 call, every fraction of a second, seconds up to 2000')])
check('C29', level='other', what='', base=dict(harness='c29_madvise.c', unwind=10), variants=[dict(name='k3', defs=['-DK=3'], bounds='3 requests in any order, every range, every kernel answer')])
check('C30', level='other', what='', base=dict(harness='c30_power.c', unwind=60), variants=[
    dict(name='one', defs=[], cbmc=['--paths', 'lifo'], bounds='at most one battery of BAT0..BAT9, unreadable or with one of 6 status texts'),
    dict(name='two', defs=['-DTWO'], cbmc=['--paths', 'lifo'], bounds='up to 2 batteries of BAT0, 1, 5 and 9, each unreadable, charging or discharging'),
    dict(name='text', defs=['-DRAW', '-DL=13', '-DVP_STRCAP=16'], bounds='one battery with any ASCII status text of up to 13 bytes')])
check('C31', level='other', what='', base=dict(harness='c31_log.c', unwind=40), variants=[
    dict(name='level', defs=['-DMODE=1'], bounds='two messages of any level, every verbosity 0..10'),
    dict(name='open', defs=['-DMODE=2'], bounds='opening and reopening with any failure')])

check('C24', level='other', what='', base=dict(harness='c24_conf.c', unwind=30), variants=[
    dict(name='load1', defs=['-DLOADS=1'], bounds='one load; every key missing, invalid or with any value'),
    dict(name='load2', defs=['-DLOADS=2'], bounds='a load and a reload; every key missing, invalid or with any value'),
    ])
check('C10', level='other', what='', base=dict(harness='c10_mem.c', unwind=420, unwindset=['vp_sscanf:70'], fs=4200, cbmc=['--paths', 'lifo']), variants=[
    *[dict(name='kernel%d' % k, defs=['-DPAGE=%d' % pg, '-DVMAX=(1LL<<40)', '-DKN=%d' % k], bounds=b + '; every value up to 2^40 kB, pages of %d bytes; where the kernel gives no estimate, cached and buffers from ranges of 256 kB' % pg, **(dict(thorough=True) if k == 1 else {})) for k, pg, b in ((0, 4096, 'lines of Linux 3.14'), (1, 4096, 'lines of Linux 2.6.28'), (2, 16384, 'lines of Linux 2.4'), (3, 4096, 'two lines'), (4, 4096, 'reordered lines'), (5, 4096, 'unreadable files'))],
    ])

_mb = lambda ne, cyc, uc, tup, nc: ['-DVP_OWN_LIBM', '-DNE=%d' % ne, '-DCYCLE=%d' % cyc, '-DUSECORR=%d' % uc, '-DNT=%d' % len(tup), '-DTUPLES=((int[]){%s})' % ','.join(map(str, tup)), '-DNC=%d' % nc]
_mt = 'every set of running programs; the counts and mean stay of the current state of a pair from %d cases, everything else arbitrary'
check('C17', level='other', what='', base=dict(harness='c17_bids.c', unwind=24, cbmc=['--paths', 'lifo'], override=['preload_markov_correlation', 'proc_get_memstat', 'preload_readahead']), variants=[
    dict(name='pair_a', defs=_mb(2, 20, 1, [0, 1, 2, 3], 5), bounds='one pair, correlation from 5 values; ' + _mt % 4),
    dict(name='pair_b', defs=_mb(2, 20, 1, [4, 5, 6, 7], 3), bounds='one pair, correlation from 3 values; ' + _mt % 4),
    dict(name='nocorr', defs=_mb(2, 7, 0, [0, 2, 3, 4, 5, 6, 7], 1), bounds='one pair, no correlation, cycle of 7 s; ' + _mt % 7),
    dict(name='three', defs=_mb(3, 90, 0, [0, 2], 1), bounds='three programs and their pairs, cycle of 90 s; ' + _mt % 2),
    dict(name='three_corr', thorough=True, defs=_mb(3, 20, 1, [0, 4], 2), bounds='three programs and their pairs; ' + _mt % 2),
    ])

check('C11', level='other', what='', base=dict(harness='c11_mapid.c', unwind=10), variants=[dict(name='two', bounds='two maps; paths of up to 2 arbitrary bytes, every offset and length')])
check('C13', level='other', what='', base=dict(harness='c13_reg.c', unwind=14, cbmc=['--paths', 'lifo']), variants=[
    dict(name='two4', defs=['-DNE=2', '-DK=4', '-DWAYS=3', '-DNM=1'], bounds='4 arrivals or departures of 2 programs, one map'),
    dict(name='two2', defs=['-DNE=2', '-DK=2', '-DWAYS=8'], bounds='2 arrivals or departures of 2 programs with any of 2 maps, collected before or after registering the program'),
    dict(name='two3', thorough=True, defs=['-DNE=2', '-DK=3', '-DWAYS=8'], bounds='3 arrivals or departures of 2 programs with any of 2 maps, collected before or after registering the program'),
    dict(name='three3', defs=['-DNE=3', '-DK=3', '-DWAYS=2', '-DNM=1'], bounds='3 arrivals or departures of 3 programs'),
    dict(name='three4', thorough=True, defs=['-DNE=3', '-DK=4', '-DWAYS=2', '-DNM=1'], bounds='4 arrivals or departures of 3 programs'),
    dict(name='three5', defs=['-DNE=3', '-DK=5', '-DWAYS=1', '-DNM=1'], bounds='5 arrivals or departures of 3 programs without maps'),
    ])
