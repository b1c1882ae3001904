"""Per-property checks: harnesses, sources compiled from /repo, symbolic parameters and bounds."""
SPECS = {}
NOT_APPLICABLE = {}
HOOKS = dict(guard="YRMCDS_VERIF_SENDBUF_SIZE", enable="compiled with -DYRMCDS_VERIF_SENDBUF_SIZE=<bytes> by the checks of P24 and P25; without it nothing changes", source_commits=["dde559c6c13bdb48c4d909154761d0284096095f"])
def spec(pid, **kw): SPECS[pid] = kw
def q(tier, a, b): return a if tier == 'quick' else b

# ---- P01 / P02: text parser (command indices follow CMDS in p01_text.cpp)
TEXT = ['set', 'add', 'replace', 'append', 'prepend', 'cas', 'get', 'gets', 'delete', 'incr', 'decr', 'touch', 'lock', 'unlock', 'unlock_all', 'slabs', 'stats', 'flush_all', 'version', 'verbosity', 'quit', 'keys']
def p01_runs(tier):
    r = [dict(mode=1, cmd=-1, n=q(tier, 11, 14))]
    for i, c in enumerate(TEXT):
        big = c in ('set', 'add', 'replace', 'append', 'prepend')
        n = 10 if big else 12 if c == 'cas' else 9
        r.append(dict(mode=1, cmd=i, n=n + q(tier, 0, 2), lead=i % 2))
    return r
spec('P01', jobs=[dict(name='text-arbitrary-bytes', harness='p01_text.cpp', runs=p01_runs, reach=['get-keys', 'incomplete', 'invalid'], time=dict(quick=60, thorough=900))],
  bounds='buffers of up to 11 arbitrary bytes, and of each command name followed by up to 9-12 arbitrary bytes', explanation='')

def p02_runs(tier):
    r = []
    for i, c in enumerate(TEXT):
        n = 9 if c in ('get', 'gets', 'keys', 'delete', 'lock', 'unlock') else 8
        if c in ('set', 'add', 'replace', 'append', 'prepend', 'cas', 'stats', 'verbosity'): n = 9
        if c == 'flush_all': n = 7
        r.append(dict(mode=2, cmd=i, n=n + q(tier, 0, 1), m=4))
    for i, c in enumerate(TEXT):
        kind = 1 if i < 5 else 2 if c == 'cas' else 5 if c in ('incr', 'decr') else 6 if c == 'touch' else 10 if c == 'flush_all' else 0
        fields = {1: [0, 1, 2, 4], 2: [0, 1, 2, 3, 4], 5: [3], 6: [1, 4], 10: [1, 4], 0: []}[kind]
        if tier == 'quick' and i in (1, 2, 4): continue
        for f in fields:
            r.append(dict(mode=3, cmd=i, field=f, fl=2, sp=1 + (i + f) % 2, noreply=(i + f) % 2))
            if f == 2: continue
            for k, (pre, plus, fl) in enumerate([(1, 0, 3), (1, 1, 2), (2, 0, 2)]):
                r.append(dict(mode=3, cmd=i, field=f, fl=fl + q(tier, 0, 1), pre=pre, plus=plus, noreply=k % 2, sp=1 + k % 2))
    return r
P02LINE = dict(mode=2)
spec('P02', jobs=[dict(name='text-decode', harness='p01_text.cpp', runs=p02_runs, reach=[], time=dict(quick=60, thorough=900), defs=()),
  ], bounds='each command followed by 8-9 arbitrary non-CR/LF bytes, CRLF and a 4-byte data block; storage/arith/touch/flush templates with numeric fields whose last 2-4 digits are symbolic at the edge of the range (2^32-1, 2^63-1, 2^64-1, 30 days), leading zeros, one digit too many, optional noreply and repeated spaces',
  explanation='the command, keys, numbers, data and noreply the real parser reports equal an independent reading of the grammar')

# ---- P03 / P04: binary parser
def p03_runs(tier): return [dict(what=3, n=n) for n in ([1, 12, 23, 24, 25, 31, 32, 44, 60, 96] if tier == 'quick' else list(range(1, 100)))] + [dict(what=3, n=n, exact=1, tail=3) for n in (290, 330)]
spec('P03', jobs=[dict(name='binary-arbitrary-bytes', harness='p03_binary.cpp', runs=p03_runs, reach=['exact-prefix'], time=dict(quick=60, thorough=900))],
  bounds='buffers of 1..96 and of 290 and 330 arbitrary bytes (all header fields, opcodes and bodies symbolic)', explanation='length 0 exactly when incomplete, otherwise 24+body; key and value inside the body; verdict and fields equal those of the exact prefix in a heap block of exactly that size')
def p04_runs(tier):
    r = [dict(n=n) for n in ([24, 28, 32, 45, 60] if tier == 'quick' else list(range(24, 100)))] + [dict(n=330)]
    r += [dict(n=24 + x + k + d, klen=k, xlen=x, exact=1) for k in (249, 250, 251) for x, d in ((0, 0), (4, 0), (8, 2), (20, 0))]
    M = 30 << 20
    return r + [dict(big=24 + 8 + 1 + M + d, klen=1, xlen=8) for d in (0, 1)]
spec('P04', jobs=[dict(name='binary-decode', harness='p03_binary.cpp', runs=p04_runs, reach=['unknown-opcode', 'bad-lengths'], time=dict(quick=60, thorough=900))],
  bounds='requests of up to 60 (quick) or 100 (thorough) and 330 arbitrary bytes with every opcode, key lengths 249-251, value lengths of 30 MiB and 30 MiB + 1', explanation='status, opcode, key, value, flags, exptime, cas, delta, initial value, quietness and statistics category equal a table of the protocol rules')

# ---- P05-P14, P37: the whole server against the reference model (kv.hpp); operation indices follow BOPS (0..38) and TEXTF (39..53) of kv.cpp
B = {n: i for i, n in enumerate('get getq getk getkq set setq add addq replace replaceq delete deleteq incr incrq decr decrq append appendq prepend prependq touch gat gatq gatk gatkq lock lockq unlock unlockq unlockall unlockallq lag lagq lagk lagkq rau rauq noop version'.split())}
T = {n: 39 + i for i, n in enumerate('set add replace append prepend cas delete incr decr touch get lock unlock unlock_all version'.split())}
ARITH = [B[x] for x in ('incr', 'incrq', 'decr', 'decrq')] + [T['incr'], T['decr']]
CONCAT = [B[x] for x in ('append', 'appendq', 'prepend', 'prependq')] + [T['append'], T['prepend']]
KVASM = ['the reactor thread runs to its next blocking point before the next request arrives (interleavings are decided by P22, P25-P29)', 'operating system calls follow rt/env.cpp; log formatting is not modelled']
KVB = 'one key in each of 8 states (absent, stored, with a later expiration, expired, locked by either of 2 connections, locked and past its expiration, deleted) next to a second key; 3 connections; '
def one(op, **kw): return dict(dict(op=op, par=11, vkind=2 if op in ARITH else 0, symflags=2 if op == 49 else 1, ticks=3), **kw)
def kvjob(name, runs, reach=('prepared', 'end'), harness='kv.cpp', **kw): return dict(dict(name=name, harness=harness, runs=runs, reach=list(reach), time=dict(quick=100, thorough=900)), **kw)
def p05_runs(tier): return [one(i) for i in range(39)]
def p05x(tier): return [dict(what=1, lo=l, cnt=16, state=s) for l in range(0, 256, 16) for s in ((5,) if tier == 'quick' else (0, 1, 5))] + [dict(what=2), dict(what=3), dict(what=4)]
spec('P05', jobs=[kvjob('binary-replies', p05_runs), kvjob('binary-special', p05x, harness='kvx.cpp')], assumptions=KVASM,
  bounds=KVB + 'one request of each of the 39 binary opcodes with symbolic flags, data, opaque, CAS, delta; every opcode 0..255 with 40 violations of its length rules; Stat (6 categories), Keys, Quit/QuitQ, 5 pipelined quiet requests split at any request boundary or inside a header',
  explanation='number, order and every specified byte of the replies (magic, opcode, key/extras/body length, status, opaque, CAS, flags, key, data) equal those of the reference model')
def p06_runs(tier): return [one(i) for i in range(39, 54)]
spec('P06', jobs=[kvjob('text-replies', p06_runs), kvjob('text-special', [dict(what=10), dict(what=11, vkind=4, symflags=2)] + [dict(what=3)], harness='kvx.cpp')], assumptions=KVASM,
  bounds=KVB + 'one request of each of the 15 text commands, with and without noreply, symbolic data and flags; malformed lines; an arbitrary 3-byte unknown verb; get/gets of 3 keys in 4 orders', explanation='the exact reply line(s) are those of the reference model, none with noreply')
def p07_runs(tier):
    r = [dict(fam=1, first=f, nops=q(tier, 2, 3), par=3, symflags=0, vkind=3) for f in range(11)]
    return r + [one(B[x], par=15) for x in ('set', 'add', 'replace', 'delete', 'get', 'setq', 'addq', 'replaceq')] + [one(T[x]) for x in ('set', 'add', 'replace', 'delete', 'get')]
spec('P07', jobs=[kvjob('storage-sequences', p07_runs)], assumptions=KVASM, bounds=KVB + 'every sequence of 2 (thorough 3) commands out of 11 storage/retrieval/deletion/touch commands in both protocols with symbolic data, from each state; single commands with symbolic flags and expiration followed by 3 GC periods',
  explanation='every reply and the final contents (value, flags, unique value, presence of both keys) equal those of the reference model')
def p08_runs(tier):
    r = []
    for op in ARITH: r += [one(op, vkind=v, par=p) for v, p in ((2, 11), (1, 11), (3, 11 + 16), (4, 11), (0, 11))]
    for op in ARITH[:4]: r.append(one(op, vkind=3, par=32 + 64 + 16, ticks=0))
    for op in CONCAT: r += [one(op, vkind=v) for v in (0, 2)]
    return r + [dict(fam=2, first=f, nops=q(tier, 2, 3), par=1, symflags=0, vkind=3) for f in range(7)] + [dict(fam=2, first=f, nops=2, par=128 if tier == 'quick' else 1, symflags=0, vkind=1) for f in range(7)]
spec('P08', jobs=[kvjob('concat-arithmetic', p08_runs)], assumptions=KVASM + ['values that begin with a blank or a sign are not specified for incr/decr'], bounds=KVB + 'values of 1-2 arbitrary bytes, 2 arbitrary digits, 1844674407370955161d for every digit d, letters; 8- or 64-bit symbolic delta and initial value; sequences of 2 (thorough 3) commands', explanation='the value, reply, flags and presence equal those of the reference model; results are compared as 64-bit numbers with the decimal bytes stored')
def p09_runs(tier):
    ops = [B[x] for x in ('set', 'setq', 'add', 'replace', 'replaceq', 'delete', 'deleteq', 'append', 'prepend', 'incr', 'decr', 'rau', 'rauq')] + [T['cas']]
    return [one(o, vkind=3 if o not in ARITH else 1) for o in ops] + [dict(fam=3, first=f, nops=2, par=q(tier, 8, 9) + 128, symflags=0, vkind=1, state=st) for f in range(7) for st in ((1, 3, 4) if tier == 'quick' else range(8))]
spec('P09', jobs=[kvjob('cas', p09_runs)], assumptions=KVASM, bounds=KVB + 'each command that honours a unique value with none, the current or an arbitrary 64-bit one; sequences of 2 commands', explanation='stores happen exactly when the unique value matches; each modification yields one different from all earlier ones; replies report the current one')
def p10_runs(tier):
    r = [one(B[x], par=4 + 2, ticks=4) for x in ('set', 'add', 'replace', 'touch', 'gat', 'gatk', 'gatq', 'gatkq', 'lag', 'lagk', 'rau', 'incr', 'decr')] + [one(T[x], par=4 + 2, ticks=4) for x in ('set', 'add', 'replace', 'touch', 'cas')]
    return r + [dict(fam=5, first=f, nops=2, par=4, symflags=0, vkind=3, mid=1, state=s) for f in range(8) for s in ((1, 2, 3, 6) if tier == 'quick' else range(8))] + [one(o, state=s, vkind=3 if o not in ARITH else 1, ticks=0) for o in range(54) for s in (3, 6)]
spec('P10', jobs=[kvjob('expiry', p10_runs)], assumptions=KVASM + ['the server clock advances once per second, as its timer does'], bounds=KVB + 'each storing/touching command with an arbitrary 32-bit expiration (text: 0, 3, 30 days, 30 days + 1, an absolute time) observed for 4 seconds; every command on an expired object; sequences of 2 commands with 1 second in between', explanation='at each second every object is visible exactly when the reference model says so, and every command treats an expired object as absent')
def p11_runs(tier): return [dict(what=20, symexp=1, state=s, vkind=3) for s in range(8)] + [dict(what=20, second=1, state=s, vkind=3) for s in range(8)] + [dict(what=20, pre=3, gc1=1, state=s, vkind=3) for s in (1, 4, 5, 6)]
spec('P11', jobs=[kvjob('flush', p11_runs, reach=['prepared', 'end', 'stored-after-flush'], harness='kvx.cpp')], assumptions=KVASM, bounds=KVB + 'flush_all in 4 forms with an arbitrary 32-bit delay/time (binary) or 7 values (text), a second flush with 4 delays, observed for 8 seconds with stores in between', explanation='objects disappear exactly when the flush is due, locked ones stay, objects stored after it stay, a newer flush is still carried out')
def p12_runs(tier):
    r = [one(o, state=s, vkind=3 if o not in ARITH else 1) for o in range(54) if o not in (T['version'], B['noop'], B['version']) for s in (4, 5)]
    return r + [dict(fam=4, first=f, nops=q(tier, 2, 3), par=1, symflags=0, vkind=3) for f in range(11)]
spec('P12', jobs=[kvjob('locks', p12_runs)], assumptions=KVASM + ['touch and get-and-touch by a non-owner are not specified'], bounds=KVB + 'each command by owner and non-owner on a locked object followed by 3 GC periods; sequences of 2 (thorough 3) of 11 locking and modifying commands by 2 connections', explanation='replies and contents equal those of the reference model with its lock owners')
spec('P13', jobs=[kvjob('connection-end', [dict(what=30, state=s) for s in range(8)] + [dict(what=30, state=s, prelude=1) for s in (4, 5, 6)] + [dict(what=3, state=s) for s in (4, 5)], harness='kvx.cpp'), kvjob('unlock-all', [one(B['unlockall']), one(B['unlockallq']), one(T['unlock_all'])])], assumptions=KVASM, bounds=KVB + '8 ways for a connection to end (end of stream, hang-up, two receive errors, quit, unlock_all, end of stream after a partial command) while it and another connection hold locks, a successor that may reuse the descriptor, 4 seconds of observation',
  explanation='locks of the dead connection are released, no one inherits them, other locks and the server stay')
spec('P37', jobs=[kvjob('keys', [dict(what=50)], reach=['keys', 'end'], harness='kvx.cpp')], assumptions=KVASM, bounds='8 keys in 3 buckets (live, expired, deleted, locked, touched), every prefix of 0-3 printable bytes, both protocols', explanation='each live key with the prefix is returned exactly once and nothing else')
def p14_runs(tier):
    st = [B[x] for x in ('set', 'setq', 'add', 'addq', 'replace', 'replaceq', 'rau', 'rauq')] + [T[x] for x in ('set', 'add', 'replace', 'cas')]
    return [dict(op=o, par=11, vkind=3, mds=5, ticks=0) for o in st] + [dict(op=o, par=11 + 256, vkind=3, mds=5, ticks=0) for o in CONCAT] + [dict(op=B['get'], par=0, vkind=3, ticks=1)]
spec('P14', jobs=[kvjob('value-limit', p14_runs), kvjob('key-limit', [dict(what=40), dict(what=41)], reach=['key-refused', 'end'], harness='kvx.cpp')], assumptions=KVASM, bounds=KVB + 'max_data_size 5: each storing command of both protocols with values of 4, 5 and 6 symbolic bytes; each append/prepend to a 3-byte value with 1, 2 and 3 bytes; keys of 249, 250 and 251 bytes', explanation='values and keys within the limits are stored, larger ones are refused with the previous object unchanged')

def p17_runs(tier):
    r = [dict(stream=i, cuts=1) for i in (0, 1, 2, 3, 4, 5, 9)] + [dict(stream=i, cuts=0) for i in range(6)] + [dict(stream=4, cuts=2), dict(stream=5, cuts=2, pause=1)]
    r += [dict(stream=6, n=q(tier, 2, 3), pause=1, lo=l, hi=l + 6) for l in range(7, 35, 7)] + [dict(stream=7, n=q(tier, 4, 5), pause=1)] + [dict(stream=8, pause=1, lo=l, hi=l + 2) for l in ((3, 23, 26, 29, 33, 38) if tier == 'quick' else range(1, 55, 3))]
    if tier != 'quick': r += [dict(stream=i, cuts=2, pause=1) for i in (0, 1, 2, 3)]
    return r + [dict(stream=20, over=o) for o in (0, 1, 20)]
spec('P17', jobs=[dict(name='segmentation', harness='p17_seg.cpp', runs=p17_runs, reach=['end'], time=dict(quick=100, thorough=900))], assumptions=KVASM, bounds='10 pipelined streams (text, binary, mixed, malformed, with quit; symbolic values, symbolic length fields, symbolic opcodes, short arbitrary text) sent whole and cut at every position (one cut, with and without EAGAIN; two cuts for the quit streams, thorough: all), byte by byte; a request of 30 MiB + 0, 1 or 20 bytes in 4 segmentations', explanation='response bytes, final contents and connection state are the same as for one segment')

# ---- direct harnesses on single classes
def djob(name, harness, runs, reach=('end',), **kw): return dict(dict(name=name, harness=harness, runs=runs, reach=list(reach), time=dict(quick=100, thorough=900)), **kw)
def p23_runs(tier):
    r = [dict(buckets=1, pre=2, nops=2, first=f) for f in range(8)] + [dict(buckets=1, pre=3, nops=1, first=f) for f in range(8)] + [dict(buckets=3, pre=2, nops=q(tier, 1, 2), first=f) for f in range(8)] + [dict(buckets=3, pre=2, nops=2, first=f, klens=1) for f in range(8)]
    r += [dict(buckets=1, pre=1, nops=3, first=f, klens=1) for f in range(8)]
    return r + ([dict(buckets=b, pre=2, nops=3, first=f) for f in range(8) for b in (1, 3, 7)] if tier != 'quick' else [])
spec('P23', jobs=[djob('map', 'd_map.cpp', p23_runs, reach=['filled', 'end'])], assumptions=['the hash is replaced by a simple function of the key bytes (the map must be a map for any hash)'],
  bounds='maps of 1, 2, 3 and more buckets holding up to 3 keys of 1-2 symbolic bytes; every sequence of 2 (1-byte keys, thorough: 3) of 8 operations with symbolic keys, handler results and GC decisions', explanation='results, handler calls, contents and the number of live objects equal those of a mathematical map')
def p33_runs(tier):
    r = [dict(nops=3, cap=c, erase=e, first=f, k=3) for c in range(3) for e in (0, 1) for f in (0, 2)] + [dict(nops=q(tier, 2, 3), cap=c, erase=e, pre=1, k=4) for c in range(4) for e in (0, 1)] + [dict(nops=2, two=1, pre=1, first=5, erase=e) for e in (0, 1)] + [dict(nops=2, two=1, first=0, k=3, cap=c) for c in range(4)]
    return r
spec('P33', jobs=[djob('dynbuf', 'd_dynbuf.cpp', p33_runs)], assumptions=['a moved-from dynbuf is only destroyed'], bounds='default capacities 0, 1, 3 and 8, with and without erasing; every sequence of 2-3 operations (append, erase, prepare/consume, reset, swap, move) of 0-4 symbolic bytes on up to 2 buffers', explanation='size, contents and equality are those of a byte vector; no access outside the allocation, no leak')
def p34_runs(tier): return [dict(n=l, hi=l + 9) for l in range(0, 40, 10)] + [dict(n=n, sym=3) for n in (56, 64, 127, 128, 200, 249, 250)] + ([dict(n=l, hi=l + 9) for l in range(40, 260, 10)] if tier != 'quick' else []) + [dict(what=1)]
spec('P34', jobs=[djob('hash', 'd_hash.cpp', p34_runs, reach=['hash'])], bounds='keys of 0-39 and of 56, 64, 127, 128, 200, 249 and 250 (thorough: all lengths up to 259) symbolic bytes under a symbolic 128-bit seed; all 16-, 32- and 64-bit integers', explanation='the hash of the real code and a SipHash-2-4 written from its specification are equal as bit-vector terms; hton/ntoh equal the shift definitions')
OBJB = 'one object with heap_data_limit 3 (6, 18, 20 for arithmetic); values and pieces of 0, 1, 2, limit-1, limit, limit+1 and 2*limit bytes of which up to 6 are symbolic; every sequence of 2 (thorough 3) operations out of set, append, prepend, numeric set, incr, decr, move, 10 GC survivals'
def obj_runs(tier, erase):
    r = [dict(nops=q(tier, 2, 3), first=f, erase=erase) for f in (0, 1, 2, 5, 6)] + [dict(nops=2, first=f, erase=erase, rdcap=c, dirty=1, lens=5) for f in (0, 1, 2) for c in (0, 40)]
    r += [dict(nops=1, first=f, short=1, erase=erase) for f in (0, 1, 2)]
    r += [dict(nops=1, first=4, lens=5, digits=1, limit=18, symn=2, erase=erase), dict(nops=1, first=4, lens=5, digits=1, limit=20, symn=1, erase=erase), dict(nops=2, arith=1, num=1, lens=3, limit=6, first=3, erase=erase)]
    r += [dict(nops=1, arith=1, num=1, lens=3, limit=6, erase=erase), dict(nops=2, arith=1, num=1, lens=2, limit=6, digits=1, first=4, erase=erase)]
    if tier != 'quick': r += [dict(nops=2, arith=1, num=1, lens=3, limit=6, first=4, erase=erase), dict(nops=1, first=3, wide=1, lens=2, erase=erase)]
    return r
def p15_runs(tier): return obj_runs(tier, 0)
def p16_runs(tier): return obj_runs(tier, 1)
spec('P15', jobs=[djob('object', 'd_object.cpp', p15_runs, reach=['created', 'end'])], assumptions=['the temporary file system works: writes and reads may be short but do not fail'], bounds=OBJB + ', with full and short reads and writes', explanation='value, size, flags and results equal those of a byte vector; at most one descriptor per object, none after it')
spec('P16', jobs=[djob('erase', 'd_object.cpp', p16_runs, reach=['created', 'end']), djob('erasing-buffers', 'd_dynbuf.cpp', lambda tier: [dict(nops=q(tier, 2, 3), cap=c, erase=1, secret=1, pre=1, k=4) for c in (0, 1, 2)] + [dict(nops=3, cap=c, erase=1, secret=1, first=f, k=3) for c in (0, 1) for f in (0, 2)] + [dict(nops=2, two=1, pre=1, first=5, erase=1, secret=1, k=3)])], assumptions=['the blocks meant are those of the object and of the temporaries its operations make; buffers of the network layer are not objects'], bounds=OBJB + ', with secure_erase', explanation='no block returned to the allocator contains a byte that semantically depends on a value the object held; the same for the contents of a dynbuf that erases, over every sequence of 2-3 of its operations')

# ---- the counter extension
CTRB = 'counters of up to 2 names used by 2 connections and observed by a third; every resource, maximum and opaque value an arbitrary 32-bit number (held amounts below 2^30); stat_interval 10; '
def p30_runs(tier):
    if tier != 'quick': return [dict(nops=2, first=f, pre=p, nf=4, names=n) for f in (0, 1, 3) for p in (0, 1, 2) for n in (1, 2)] + [dict(nops=3, first=f, pre=p, nf=2, names=1) for f in (0, 1) for p in (0, 1, 2)]
    return [dict(nops=2, first=f, pre=2, nf=2, names=1) for f in (0, 1)] + [dict(nops=2, first=f, pre=1, nf=3, names=2) for f in (0, 1)] + [dict(nops=2, first=0, pre=1, nf=4, names=1)] + [dict(nops=3, first=0, pre=0, nf=2, names=1)]
def p31_runs(tier):
    r = [dict(nops=2, first=f, pre=p, nf=5, names=q(tier, 1, 2)) for f, p in ((0, 1), (3, 1), (3, 2), (4, 2))] + [dict(nops=1, first=f, pre=2, nf=5, age=1) for f in (0, 1, 3, 4)]
    return r + ([dict(nops=3, first=f, pre=p, nf=5, names=1) for f in range(5) for p in (0, 1, 2)] if tier != 'quick' else [dict(nops=3, first=3, pre=1, nf=4, names=1)])
def p32_runs(tier): return [dict(what=2)] + [dict(what=1, body=b) for b in (0, 13)] + [dict(what=1, op=o, body=b) for o in (1, 2, 3) for b in ((0, 1, 2, 5, 6, 7, 9, 10, 11, 14) if tier == 'quick' else range(0, 24))] + [dict(what=1, op=o, body=b) for o in (0, 16, 17) for b in (0, 2)] + [dict(what=1, nomagic=1, body=4, op=o) for o in (0, 1, 2, 3)] + [dict(what=0, nops=1, first=f, pre=1) for f in (0, 1, 2, 5, 6)]
spec('P30', jobs=[kvjob('counters', p30_runs, reach=['end'], harness='p30_counter.cpp')], assumptions=KVASM, bounds=CTRB + 'every sequence of 2-3 Acquire/Release/Get/connection ends from states in which each connection may hold some', explanation='each reply, and Get and Dump after each step, equal those of a model with unbounded sums; a connection releases at most what it holds')
spec('P31', jobs=[kvjob('counter-connections', p31_runs, reach=['end', 'closed'], harness='p30_counter.cpp')], assumptions=KVASM, bounds=CTRB + 'every sequence of 2 (thorough 3) of Acquire, Release, Get, connection end (3 ways), a statistics interval passing', explanation='after the end of a connection exactly its holdings are gone; counters in use survive, idle ones disappear with the interval; Dump lists each counter once with consumption and the interval maximum')
spec('P32', jobs=[djob('counter-decode', 'd_ctr.cpp', lambda tier: [dict(n=n) for n in ((1, 11, 12, 13, 14, 16, 18, 20, 22, 23, 28, 60) if tier == 'quick' else range(1, 80))], reach=['end', 'decoded']), kvjob('counter-replies', p32_runs, reach=['end', 'answered', 'cut'], harness='p30_counter.cpp')], assumptions=KVASM, bounds='parser: 1-60 arbitrary bytes in a block of that size; server: requests with every byte symbolic and bodies of 0-14 bytes, 6 pipelined requests cut at every position', explanation='verdict, fields and length equal an independent reading of docs/counter.md; replies carry magic, opcode, status, opaque and exact body length')

# ---- replication
SLV = 'slaves answer heartbeats and take what is sent to them'
def p18_runs(tier):
    r = [dict(one(i, par=3 if i in ARITH else 7, vkind=3 if i in CONCAT else 1 if i in ARITH else 0), slave=1) for i in range(54) if i not in (B['noop'], B['version'], T['version'])]
    r += [one(B[x], par=515, vkind=5, slave=1) for x in ('set', 'add', 'append', 'rau')] + [one(T[x], par=515, vkind=5, slave=1) for x in ('set', 'prepend', 'cas')]
    r += [dict(fam=f, first=i, nops=2, par=2 if f not in (2, 4) else 130 if f == 2 else 1, symflags=0, vkind=1 if f == 2 else 3, slave=1, **({} if tier != 'quick' else dict(state=1 if f != 5 else 2))) for f, n in ((1, 11), (2, 7), (4, 11), (5, 8)) for i in range(n)]
    return r
spec('P18', jobs=[kvjob('replicated-commands', p18_runs), kvjob('replicated-flush', [dict(what=20, state=s, vkind=3, slave=1) for s in range(8)] + [dict(what=30, state=s, slave=1) for s in (4, 5, 7)], harness='kvx.cpp')], assumptions=KVASM + [SLV],
  bounds=KVB + 'one slave connected from the start; one request of each of the 51 modifying or reading commands with symbolic data, flags and 32-bit expiration (text: 7 values up to 2^32+1), empty values; sequences of 2 commands from a stored object (thorough: from each state); flush_all and the end of connections; 3-8 seconds of GC runs', explanation='the bytes sent to the slave, read by an independent decoder, give exactly the objects, values, flags and expirations of the reference model after every step')
def p19_runs(tier):
    r = [dict(what=0, n=1, cuts=1, exps=2, first=f) for f in range(5)] + [dict(what=0, n=1, cuts=2, exps=0, lens=2, first=f) for f in range(5)] + [dict(what=0, n=2, cuts=1, exps=q(tier, 0, 1), lens=q(tier, 2, 3), first=f) for f in range(5)] + [dict(what=0, n=1, cuts=1, partial=1, exps=0, lens=q(tier, 2, 3), pause=q(tier, 1, -1), first=f) for f in range(5)]
    r += [dict(what=1, len=l) for l in (1, 23, 24, 25, 30, 40)] + [dict(what=1, len=l, op=o) for o in (0x11, 0x14, 0x1c) for l in (28, 36)]
    return r
spec('P19', jobs=[kvjob('slave-stream', p19_runs, reach=['fed', 'end'], harness='p19_slave.cpp')], assumptions=KVASM, bounds='streams of 1-2 records out of SetQ (0-2 symbolic bytes, symbolic flags and expiration), Touch, DeleteQ, Noop and an unknown command on 2 keys, cut at every 1-2 positions with and without a pause between the segments, with a record the master did not finish; 1-40 arbitrary bytes cut at every position', explanation='after its promotion the real slave serves exactly the objects the records describe; no access outside the received bytes')
def p20_runs(tier):
    ops = [B[x] for x in ('set', 'add', 'delete', 'append', 'incr', 'touch', 'gat', 'lock', 'unlock', 'rau', 'unlockall')]
    return [dict(one(o, par=3, vkind=1), slave=s, when=w) for o in ops for s in ((2, 3) if tier != 'quick' else (3,)) for w in (0, 1)]
def p20_gc(tier): return [dict(cause=c, hold=h, slave=s, state=st) for c, h in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (2, 0)) for s in (0, 1) for st in ((1, 2, 3, 4, 6) if tier == 'quick' else range(8))]
spec('P20', jobs=[kvjob('late-slave', p20_runs, reach=['joined', 'end']), kvjob('late-slave-flush', [dict(what=20, state=s, vkind=3, slave=3) for s in range(8)], harness='kvx.cpp'), kvjob('gc-in-progress', p20_gc, reach=['held', 'late', 'stored', 'end'], harness='p20_gc.cpp')], assumptions=KVASM + [SLV], bounds=KVB + 'a slave that joins before or after one command of 11, next to none or one that was there from the start; flush_all; a GC run (for a new slave, a flush or the interval) held at its start or between any two of 3 buckets while another slave joins and a client stores, deletes, appends, touches or locks', explanation='after the GC runs each slave holds exactly the objects of the master, read by an independent decoder of the stream')
def p39_runs(tier): return [dict(what=0, n=n, cuts=0, end=e) for e in range(6) for n in (q(tier, (1,), (1, 2)))] + [dict(what=2, n=1, cuts=0, end=e) for e in range(3)] + [dict(what=3)] + [dict(what=4, master=m) for m in (0, 1)]
spec('P39', jobs=[kvjob('roles', p39_runs, reach=['promoted', 'rejoined', 'lost', 'ended', 'survived', 'end'], harness='p19_slave.cpp')], assumptions=KVASM + ['the address appears while the server waits for events or during the promotion window, not between two instructions'], bounds='a slave with 1 (thorough 2) replicated records with symbolic contents; the connection to the master ends in 5 ways (end of stream, hang-up, each together with a heartbeat, failing heartbeat) or the address arrives first; the address is there at once, later or never; 5 signals, once or twice, in both roles; gc_interval 3', explanation='contents served after promotion, connections and exit status equal those the statement gives')

def p21_direct(tier):
    r = [dict(n=1, mode=m, interval=i, classes=1) for m in (0, 1, 2) for i in (0, 1, 2)] + [dict(n=2, mode=m, classes=0) for m in (0, 1, 2)] + [dict(n=2, mode=2, classes=0, interval=1, buckets=2)]
    return r + ([dict(n=3, mode=m, classes=0, buckets=b) for m in (0, 1, 2) for b in (1, 2)] if tier != 'quick' else [dict(n=3, mode=0, classes=0, buckets=2)])
def p21_srv(tier): return [dict(n=q(tier, 4, 5), limit=l) for l in (0, 1)] + [dict(n=3, limit=1, keys=k) for k in (1, 2)]
spec('P21', jobs=[djob('gc-run', 'd_gc.cpp', p21_direct, reach=['collected', 'removed', 'evicted', 'end']), kvjob('gc-server', p21_srv, reach=['gc', 'evicted', 'end'], harness='p21_server.cpp')], assumptions=['the eviction age is the one docs and code derive from the oldest age and gc_interval', 'time stands still while a GC thread runs'],
  bounds='one run of the GC thread over 1-3 objects in 1-2 buckets with arbitrary 32-bit age and expiration, arbitrary size and lock state, an arbitrary flush time, arbitrary used memory and oldest age, gc_interval 10, 3600 and 86400; the server: every sequence of 4 (thorough 5) get/set/set with expiration/lock, one per second, on 3 objects, with and without memory pressure, then 3 idle seconds', explanation='exactly the removable objects are removed, the survivors are unchanged and one age older, every published statistic equals the one computed from the surviving objects; GC runs exactly when interval, pressure or flush ask for it')

def p35_runs(tier):
    r = []; INT = range(12); UNIT = (12, 13, 14)
    for k in INT: r += [dict(key=k, n=2), dict(key=k, pre=3, n=1), dict(key=k, pre=3, n=2), dict(key=k, pre=4, n=1), dict(key=k, pre=5, n=1)]
    for k in (0, 1, 8): r += [dict(key=k, pre=1, n=1), dict(key=k, pre=1, n=2)]
    r += [dict(key=5, pre=2, n=1), dict(key=5, pre=2, n=2), dict(key=11, pre=17, n=1)]
    for k in UNIT: r += [dict(key=k, n=2), dict(key=k, pre=10, n=2), dict(key=k, pre=11, n=2), dict(key=k, pre=3, n=2), dict(key=k, pre=4, n=2), dict(key=k, pre=16, n=2), dict(key=k, pre=18, n=1), dict(key=k, pre=7, n=2), dict(key=k, n=2, quote=1)]
    r += [dict(key=15, pre=p, n=n) for p, n in ((0, 2), (5, 1), (5, 2), (3, 2), (6, 2), (7, 2))]
    for k in (16, 17, 18): r += [dict(key=k, pre=12, n=1), dict(key=k, pre=13, n=1), dict(key=k, n=2), dict(key=k, pre=12, n=2), dict(key=k, n=1, pre=12, quote=1)]
    r += [dict(key=19, pre=14, n=1), dict(key=19, pre=14, n=2), dict(key=19, n=4), dict(key=20, n=2), dict(key=20, pre=15, n=2), dict(key=20, n=1, quote=1)]
    for k in (0, 2, 15): r += [dict(key=k, n=1, pre=8, quote=1), dict(key=k, n=2, quote=1), dict(key=k, n=1, pre=9), dict(key=k, n=3)]
    r += [dict(what=1), dict(what=1, a=2, b=0, c=0, d=0), dict(what=1, a=0, b=2, c=0, d=1), dict(what=1, a=0, b=0, c=2, d=1), dict(what=1, a=1, b=0, c=0, d=2), dict(what=2)]
    if tier != 'quick': r += [dict(key=k, n=3) for k in range(21)] + [dict(key=k, n=3, quote=1) for k in (0, 5, 12, 15)] + [dict(what=1, a=2, b=1, c=1, d=1), dict(what=1, a=1, b=1, c=1, d=2), dict(key=16, n=4), dict(key=19, n=5)]
    return r
spec('P35', jobs=[djob('config', 'p35_config.cpp', p35_runs, reach=['accepted', 'refused', 'end'])], assumptions=['the hash of the table that holds the settings is replaced by a constant function', 'addresses, users and the temporary directory are resolved by the system and not part of the property'],
  bounds='each of 21 settings with every value of 1-2 (thorough 3) bytes, and with prefixes at the edges (6553x, 64, 2^31-1, 2^32-1, 2^64-1, leading zeros, signs, units) followed by 1-2 arbitrary bytes, quoted and not; a two-line file with up to 4 arbitrary bytes around name, equals sign and value; repeated settings, comments and blank lines', explanation='accepted exactly when an independent reading of the format and the documented ranges accepts; every setting then reports the configured value or its default')

def p36_runs(tier):
    r = [dict(nops=q(tier, 3, 4), max=m, cmax=c, pre=p) for m, c, p in ((0, 0, 1), (1, 1, 0), (1, 2, 1), (2, 1, 1), (2, 2, 2), (3, 0, 2))]
    return r + [dict(what=1, nops=q(tier, 3, 4), pre=p) for p in (0, 3, 4, 5)] + [dict(what=2, nops=4), dict(what=3)]
spec('P36', jobs=[kvjob('limits', p36_runs, reach=['admitted', 'refused', 'end'], harness='p36_limits.cpp')], assumptions=KVASM + ['a slave that left may keep its place until the next second'], bounds='max_connections and counter.max_connections 0-3; every sequence of 3 (thorough 4) of: one or two clients arriving, a counter client arriving, any connection ending in 5 ways (end of stream, hang-up, receive error, quit, error event), a second passing; 0-5 replication connections; accept failing with 15 error numbers once or twice; a slave with 4 clients',
  explanation='a connection is admitted exactly when the model has room, an admitted one is served and stays, a refused one is closed, and exactly the remaining room is left at the end')
def p38_runs(tier): return [dict(n=3, timeout=t) for t in (1, 2)] + [dict(n=q(tier, 2, 3), slaves=1, timeout=t, after=1) for t in (1, 2, 3)] + [dict(n=3, slaves=1, timeout=3)]
spec('P38', jobs=[kvjob('heartbeats', p38_runs, reach=['end', 'timed out', 'updated'], harness='p38_hb.cpp')], assumptions=KVASM + ['heartbeats arrive between two ticks of the clock of the server'], bounds='slave_timeout 1-3, gc_interval 2, 2 slaves or 1 and up to 3 that join later, 3 seconds, in each of which a slave sends nothing, 1 or 3 bytes, closes, fails or hangs up, with a client storing an object every second', explanation='each slave is dropped exactly at the second the model gives, receives nothing afterwards, and every live one receives each update')

# ---- sending (the send buffers of the real code made small)
SB4 = ('-DYRMCDS_VERIF_SENDBUF_SIZE=4',); SB64 = ('-DYRMCDS_VERIF_SENDBUF_SIZE=64',)
def p24_runs(tier):
    r = [dict(nops=1, bufcnt=b, errors=e) for b in (0, 1, 2) for e in (0, 1)]
    r += [dict(nops=2, first=f, maxlen=3 if f < 2 or tier != 'quick' else 2, kernel=2, bufcnt=b, errors=e) for f in range(4) for b in (0, 1, 2) for e in (0, 1) if tier != 'quick' or e == 0 or b == 1]
    r += [dict(nops=3, simple=1, lens=l, bufcnt=b, kernel=4) for l in (3, 5, 9) for b in (0, 1, 2)] + [dict(nops=4, simple=1, lens=3, bufcnt=2, kernel=4)]
    return r + ([] if tier == 'quick' else [dict(nops=2, first=f, maxlen=5, kernel=2, bufcnt=b) for f in range(4) for b in (0, 1, 2)] + [dict(nops=3, simple=1, lens=l, bufcnt=b, kernel=5, errors=1) for l in (3, 5) for b in (1, 2)] + [dict(nops=4, simple=1, lens=l, bufcnt=b, kernel=5) for l in (3, 5) for b in (1, 2)])
def p24_srv(tier): return [dict(what=0, stream=s, end=e, kernel=q(tier, 4, 6)) for s in range(7) for e in range(3)]
spec('P24', jobs=[djob('tcp-socket', 'd_tcp.cpp', p24_runs, reach=['sent', 'closed', 'failed', 'end'], defs=SB4), kvjob('slow-client', p24_srv, reach=['end'], harness='p25_server.cpp', defs=SB64)], assumptions=['nothing is sent on a socket after a call that asks to close it (no caller does)', 'the kernel reports EPOLLOUT when it takes data again after it refused some'],
  bounds='send buffers of 4 bytes, 1, 2 or any number of them; every sequence of 1-2 calls of send, sendv, with and without flush, send_close, sendv_close, close_after_send with up to 5 (thorough 12) symbolic bytes in 4 pieces, and of 3-4 calls of 3-9 bytes; up to 4 system calls take 0, 1, 2, all but one or all bytes, are interrupted or fail; the server: 7 pipelined streams of requests (quit in both protocols), replies taken in pieces, connection ended in 3 ways', explanation='at any time what the kernel got is a prefix of the accepted bytes in order, and finally all of it, flushed, before the connection is closed; a sender waits only while the buffers are full; after an error every call fails and the descriptor is closed once')
def p25_runs(tier):
    r = [dict(preempt=2, kernel=2), dict(preempt=3, kernel=1), dict(preempt=1, msgs=2), dict(preempt=1, threads=3, kernel=1), dict(preempt=1, worker=1, kernel=1), dict(preempt=1, worker=1, kernel=1, errors=1), dict(preempt=2, errors=1, kernel=1)]
    r += [dict(preempt=2, closer=0, kernel=1), dict(preempt=1, closer=1, kernel=2, errors=1)] + [dict(preempt=1, bufcnt=0, kernel=2), dict(preempt=1, bufcnt=2, len=5, kernel=2, msgs=2)]
    return r + ([] if tier == 'quick' else [dict(preempt=2, worker=1, kernel=1), dict(preempt=3, kernel=2, errors=1), dict(preempt=2, threads=3, kernel=1), dict(preempt=2, msgs=2, kernel=2), dict(preempt=4, kernel=1)])
def p25_srv(tier): return [dict(what=1, workers=w, n=4, kernel=q(tier, 4, 6)) for w in (1, 2)] + [dict(what=2, workers=w, n=n) for w, n in ((1, 4), (2, 4), (2, 6), (3, 6))] + [dict(what=3)]
spec('P25', jobs=[djob('senders', 'd_tcp2.cpp', p25_runs, reach=['sent', 'failed', 'closed', 'end'], defs=SB4), kvjob('slow-slave', p25_srv, reach=['dropped', 'two workers wait', 'end'], harness='p25_server.cpp', defs=SB64)], assumptions=['switches of threads happen at synchronisation operations and system calls (sequential consistency)', 'the kernel reports EPOLLOUT when it takes data again after it refused some'],
  bounds='2-3 threads sending 1-2 messages of 3-6 bytes, the reactor and a worker writing pending data; buffers of 4 bytes; up to 3 (thorough 4) preemptions at any synchronisation operation or system call, any choice of the thread to run at blocking points; up to 2 system calls take nothing, half or all, or fail; the server with 1-3 workers and a slave that takes its data slowly or never, and a client that held a lock and leaves meanwhile', explanation='messages are never mixed, lost or duplicated, those of a thread stay in order, no thread waits for ever, and a slow or dead slave never stops the server')

# ---- threads
SCHED = 'switches of threads happen at synchronisation operations, atomic operations and system calls (sequential consistency)'
def p22_map(tier): return [dict(preempt=q(tier, 2, 3))] + [dict(keys=2, preempt=q(tier, 1, 2)), dict(buckets=3, preempt=q(tier, 1, 2))] + [dict(ops=2, preempt=1, first=f, lim=q(tier, 6, 9)) for f in (0, 1, 2, 3, 5)] + [dict(threads=3, preempt=q(tier, 0, 1), first=f) for f in range(9)]
def p22_srv(tier):
    r = [dict(preempt=1, first=f, slave=s) for f in range(10) for s in (0, 1)] + [dict(preempt=q(tier, 0, 1), two=1, first=f, slave=1) for f in range(10)] + [dict(preempt=1, gc=1, first=f, slave=1) for f in ((0, 3, 4, 5, 7, 9) if tier == 'quick' else range(10))]
    return r + ([dict(preempt=2, first=f, second=g, slave=g % 2) for f in range(10) for g in range(10)] if tier != 'quick' else [dict(preempt=2, first=f, second=f, state=1) for f in (0, 1, 3, 6, 7)])
spec('P22', jobs=[djob('map-threads', 'd_conc.cpp', p22_map, reach=['done', 'end']), kvjob('server-threads', p22_srv, reach=['done', 'compared', 'end'], harness='p22_server.cpp')], assumptions=[SCHED, 'the hash is replaced by a simple function of the key bytes in the direct harness', 'unique values may come back when a key is created anew'],
  bounds='the map: 2 threads with 1-2 operations or 3 threads with 1, out of 9 (increment, add, upsert, remove, conditional remove, GC, walk, lock, unlock) on 1-2 keys in one or several buckets, up to 2 (thorough 3) preemptions at any switch point, inside handlers too; the server: any two of 10 text commands (one client with two) on one key absent, stored, locked by one of them or expired, executed by 2 workers with a GC run and a slave, 1 (selected pairs and thorough: 2) preemptions from the moment the reactor has handed them out',
  explanation='results, replies and the final object are those of some sequential order of the operations; the slave ends with the value of the master; handlers never see an object that is half updated or freed')
def p26_runs(tier):
    r = [dict(what=1, n=1, rounds=2, preempt=1), dict(what=1, n=1, rounds=3, preempt=2, threads=1), dict(what=1, n=2, rounds=2, preempt=1, masks=1, threads=1), dict(what=1, n=1, rounds=2, preempt=0, threads=3), dict(what=1, n=1, rounds=1, preempt=1, masks=3)]
    r += [dict(n=1, rounds=3, masks=2, lim=3, lastact=1), dict(n=2, rounds=2, masks=2, lastact=1), dict(n=1, rounds=2, masks=2)]
    return r + ([] if tier == 'quick' else [dict(what=1, n=1, rounds=2, preempt=2, masks=3), dict(what=1, n=2, rounds=2, preempt=1, masks=2), dict(n=1, rounds=3, masks=3), dict(n=2, rounds=2, masks=3)])
P26R = ['held', 'collected', 'used', 'refused', 'removed', 'end']
spec('P26', jobs=[djob('descriptors', 'd_reactor.cpp', p26_runs, reach=P26R), kvjob('connections', [dict(what=4, workers=w) for w in (1, 2, 3)], reach=['waits', 'end'], harness='p25_server.cpp', defs=SB64), kvjob('connection-ends', [dict(what=30, state=s) for s in (1, 4, 5)], harness='kvx.cpp')], assumptions=[SCHED, 'the collector runs gc when every thread has been idle since fix_garbage (P29)'],
  bounds='1-2 resources, 1-3 threads using one (successfully, with failure, or asking for its end) while the reactor handles up to 3 batches of events with handlers that invalidate, up to 2 preemptions; one thread inside a resource while it is removed, collected and its destruction deferred; the server with a worker waiting for a slow slave while another connection it refers to ends in 4 ways', explanation='on_invalidate, close and destruction happen exactly once and in this order, never while a thread uses the descriptor; the model of the operating system reports every call on a closed descriptor')
def p27_runs(tier):
    r = [dict(n=2, rounds=1), dict(n=1, rounds=2, masks=3, lastact=1), dict(n=2, rounds=2, masks=2, lastact=1), dict(n=3, rounds=1, masks=4, lastact=1, rev=1), dict(n=3, rounds=2, masks=2, acts=1), dict(n=2, rounds=2, masks=2, lim=3, lastact=1, acts=3), dict(n=1, rounds=3, masks=2, lim=3, lastact=1), dict(n=1, rounds=4, masks=2, acts=1), dict(n=2, rounds=1, masks=7, rev=1, lastact=1)]
    return r + ([] if tier == 'quick' else [dict(n=3, rounds=1, masks=7, lastact=1, rev=1), dict(n=2, rounds=2, masks=4, lastact=1), dict(n=3, rounds=3, masks=2, acts=1), dict(n=1, rounds=3, masks=3), dict(n=4, rounds=1, masks=4, lastact=1, rev=1)])
spec('P27', jobs=[djob('dispatch', 'd_reactor.cpp', p27_runs, reach=['added', 'held', 'collected', 'removed', 'end'])], assumptions=['one event per descriptor and batch, none for a descriptor that was removed (epoll)'],
  bounds='1-3 resources; up to 4 rounds; in each a batch with any of 6 event combinations per resource in both orders; each handler call returns normally, invalidates, asks to be called again or fails through with_fd; between rounds a resource is added, removed or used by a thread, or garbage is collected', explanation='the sequence of handler calls, the registered resources, remembered readables and removal requests equal those of a model')
def p28_runs(tier):
    r = [dict(nops=3, preempt=3), dict(nops=4, preempt=2), dict(nops=5, preempt=1), dict(nops=2, workers=2, preempt=1, kinds=1), dict(nops=3, workers=2, preempt=0), dict(late=1, nops=3, preempt=2)]
    return r + ([] if tier == 'quick' else [dict(nops=4, preempt=4), dict(nops=6, preempt=2), dict(nops=3, workers=2, preempt=1), dict(late=1, nops=4, preempt=3)])
spec('P28', jobs=[djob('worker', 'd_worker.cpp', p28_runs, reach=['busy', 'posted', 'stopped', 'end'])], assumptions=[SCHED, 'jobs are posted to idle workers by one thread, which also stops them (the reactor)'],
  bounds='1-2 workers; every sequence of 2-5 (thorough 6) of post when idle, switch, stop, with jobs that leave nothing, 3 or 8 bytes in the buffer; up to 3 (thorough 4) preemptions at any atomic operation or system call, also before the thread has started', explanation='each job ran exactly once when the worker reports idle again or stop returns, with an empty buffer, and stop always returns')
def p29_runs(tier): return [dict(what=1, workers=w, nops=n) for w, n in ((1, 6), (2, q(tier, 6, 7)), (3, q(tier, 5, 6)))]
spec('P29', jobs=[djob('syncer', 'd_worker.cpp', p29_runs, reach=['pending', 'checked', 'fired', 'end']), kvjob('collection', [dict(what=4, workers=w) for w in (1, 2, 3)] + [dict(what=3)], reach=['waits', 'two workers wait', 'end'], harness='p25_server.cpp', defs=SB64)], assumptions=[SCHED],
  bounds='1-3 workers; every sequence of 5-6 (thorough 7) of: add a request, check, a worker becoming busy or idle; the server: a worker that waits for a slow slave while another connection it refers to ends and is collected', explanation='a callback runs exactly once, at the first check by which every worker has been idle at a check since the request; no resource is destroyed while a worker may refer to it')
# ---- P40: statistics
def p40_ops(tier): return [dict(what=1, op=i, text=x) for i in range(54) for x in ((int(i >= 39),) if tier == 'quick' else (0, 1))] + [dict(what=2, text=x) for x in (0, 1)]
def p40_other(tier): return [dict(what=3, n=q(tier, 3, 5), text=x) for x in (0, 1)] + [dict(what=5, conf=c, text=x) for c in (0, 1) for x in (0, 1)] + [dict(what=6, text=x) for x in (0, 1)] + [dict(what=4, lo=i, text=x) for i in range(27) for x in ((1,) if tier == 'quick' and i % 5 else (0, 1))]
spec('P40', jobs=[kvjob('stat-commands', p40_ops, reach=['counted', 'cas hit', 'cas badval', 'cas miss', 'created', 'misc', 'end'], harness='p40_stats.cpp'),
  kvjob('stat-other', p40_other, reach=['conns', 'closed', 'slaves', 'settings', 'gc', 'expired', 'conflict', 'rendered', 'end'], harness='p40_stats.cpp'), kvjob('stat-counter', lambda tier: [dict(what=7, n=q(tier, 2, 4))], reach=['counters', 'counter made', 'end'], harness='p40_stats.cpp')], assumptions=KVASM[:1] + ['operating system calls follow rt/env.cpp; std::ostringstream follows rt/sxios.cpp (strings, characters, integers, width, fill, base)'],
  bounds=KVB + 'one request of each of the 39 binary opcodes and 15 text commands with symbolic flags and CAS, 21 other request lines and packets (multi-key gets, keys, flush, quit, pipelines, incomplete and unknown ones); every history of 3 (thorough: 5) connects, closes in 5 ways and slave joins; 2 items of 9 sizes each over 8 s with a collection each 2 s; 2 configurations; each of 27 numeric statistics with a symbolic low byte around 0, 900, 2^31/2^32, 10^19 and 2^64; every history of 2 (thorough: 4) counter requests with symbolic Acquire arguments',
  explanation='statistics are read from the wire before and after (binary Stat or text stats) and matched by name: each differs by exactly what the reference model says happened in between')
