"""Which workloads and which oracle verdicts decide each property.

work:  (workload, build, cases quick, cases thorough[, options])
own:   verdicts "class:rule" that mean this property is broken (see run.py for the classes, model.py for the rules)
focus: what has to have been observed for the run to mean anything
"""
ASSUME = ['The emulated SDK (emu/) behaves like the Ledger SDK and system calls it stands for.',
          'lib/ref.py (encodings, secp256k1, BLAKE2b/SHA-256/HMAC from Python) is right; it was written from the format '
          'definitions, not from the code under test.']
RULE = ('Seeded random cases of the named workloads, each from power-on, compared step by step with the executable specification; '
        'a case is non-trivial when it reached at least one of the observations listed under "observed"; two cases are the same '
        'when their sequences of expected outcomes and observation counts are equal.')
PROPS = {}
def P(id, work, own, focus, **kw):
    # every workload of the sanitized build also runs, in other cases, in a 32-bit build of it: sizes and pointers as on the device
    work = work + [(sc, 'asan32', -(-q // 3), -(-t // 3), *o) for sc, v, q, t, *o in work if v == 'asan']
    PROPS[id] = dict(work=work, own=own, focus=focus, rule=RULE, **kw)

BAD = ('accepted', 'prompted', 'noprompt')   # something that had to be refused (or asked) was not
def bad(*tags): return [c + ':' + t for c in BAD for t in tags]

# ---- signing
P('P01', [('valid', 'asan', 1500, 30000), ('big', 'asan', 60, 1500), ('huge', 'asan', 12, 400), ('several', 'asan', 300, 6000), ('mutated', 'asan', 1500, 30000),
          ('stages', 'asan', 800, 20000), ('limits', 'asan', 800, 20000), ('change', 'asan', 300, 6000), ('tokens_many', 'asan', 200, 4000)],
  ['*:signature', 'data:*', 'derive:*', 'refused:sign.*', 'refused:silent.*', 'refused:consent.output*', 'refused:consent.confirm'] + bad('order*', 'count.*', 'size.*', 'smallchunk', 'tok.*', 'data.short', 'short', 'consent.confirm', 'session', 'nocmd'),
  ['sw:signature'])
P('P02', [('rejecting', 'asan', 2000, 40000), ('consent', 'asan', 600, 12000), ('several', 'asan', 250, 6000), ('stages', 'asan', 800, 20000),
          ('hostile', 'asan', 400, 10000), ('change', 'asan', 500, 10000), ('fault', 'asan', 400, 8000), ('nav', 'asan', 300, 6000)],
  bad('deny', 'consent.sign', 'consent.confirm', 'consent.output*', 'nocmd', 'session', 'order*', 'busy', 'signature') +
  ['response:*', 'silent:deny', 'refused:deny', 'accepted:page.error', 'silent:page.error', 'nav:disturbed'],
  ['sw:deny', 'sw:signature', 'prompt:consent.confirm', 'prompt:consent.sign', 'prompt:consent.output*', 'sw:nocmd'])
P('P03', [('valid', 'asan', 1200, 25000), ('valid', 'asan_s', 500, 10000), ('change', 'asan', 600, 12000), ('tokens_many', 'asan', 400, 8000),
          ('tokens_many', 'asan_s', 100, 3000), ('overflow', 'asan', 500, 10000), ('exhaustive_nav', 'asan', 600, 12000), ('several', 'asan', 200, 4000), ('limits', 'asan', 300, 6000), ('stages', 'asan', 300, 6000)],
  ['screen:output.*', 'noprompt:consent.output*', 'refused:consent.output*', 'silent:consent.output*', 'refused:output.*', 'nav:output.*', 'data:signature'] + bad('tok.dup', 'tok.index'),
  ['screen:output.address', 'screen:output.script', 'screen:output.value', 'screen:output.token', 'screen:output.tokenvalue', 'screen:output.change', 'screen:output.fee'])
P('P04', [('change', 'asan', 2500, 50000), ('valid', 'asan', 800, 16000), ('rejecting', 'asan', 400, 8000), ('several', 'asan', 250, 5000),
          ('change_paths', 'asan', 500, 10000), ('tokens_many', 'asan', 200, 4000)],
  ['noprompt:consent.output*', 'prompted:silent.*', 'refused:silent.*', 'refused:consent.output.change', 'screen:output.change', 'data:signature', 'derive:*'] +
  bad('path.change'),
  ['sw:silent.fee', 'sw:silent.change', 'prompt:consent.output.change', 'prompt:consent.output.fee', 'prompt:consent.output.tree'])
P('P05', [('valid', 'asan', 1200, 25000), ('valid', 'asan_s', 500, 10000), ('overflow', 'asan', 1200, 25000), ('tokens_many', 'asan', 600, 12000),
          ('tokens_many', 'asan_s', 150, 3000), ('several', 'asan', 300, 6000), ('exhaustive_nav', 'asan', 600, 12000), ('change', 'asan', 500, 10000)],
  bad('limit.table') + ['screen:confirm.*', 'screen:summary.*', 'noprompt:consent.confirm', 'refused:consent.confirm', 'silent:consent.confirm', 'nav:summary.*', 'nav:confirm.*'],
  ['sw:limit.table', 'screen:summary.path', 'screen:summary.amount', 'screen:summary.fee', 'screen:summary.token', 'screen:summary.tokenvalue'])
P('P06', [('overflow', 'asan', 4000, 80000), ('tokens_many', 'asan', 600, 12000), ('valid', 'asan', 400, 8000), ('change', 'asan', 300, 6000)],
  bad('overflow*', 'limit.table') + ['screen:summary.*', 'screen:output.value', 'screen:output.tokenvalue', 'crash:*', 'refused:sign.*', 'refused:silent.*', 'refused:consent.confirm', 'data:signature'],
  ['sw:overflow.value', 'sw:overflow.out', 'sw:overflow.tokenin', 'sw:overflow.tokenout', 'screen:summary.amount', 'screen:summary.tokenvalue'])
# ---- attestation
P('P07', [('frames', 'asan', 3000, 60000), ('forged', 'asan', 1200, 24000), ('stages', 'asan', 300, 8000), ('mutated', 'asan', 600, 12000), ('tokens_many', 'asan', 200, 4000), ('boots', 'asan', 100, 2000)],
  bad('frame.*', 'order.frame', 'limit.ext', 'count.inputs0', 'limit.table', 'nocmd') + ['refused:sign.input', 'screen:summary.*', 'data:signature', 'bootkey:*'],
  ['sw:frame.mac', 'sw:frame.box', 'sw:frame.order', 'sw:sign.input'])
P('P08', [('attest', 'asan', 3000, 60000), ('attest_mut', 'asan', 2500, 50000), ('boots', 'asan', 150, 3000), ('tokens_many', 'asan', 100, 2000)],
  ['data:attest.*', 'refused:attest.*'] + ['accepted:' + t for t in ('session', 'nocmd', 'limit.*', 'size.*', 'count.*', 'tok.*', 'order*', 'smallchunk', 'short', 'frame.range', 'trailing')],
  ['sw:attest.frame', 'sw:attest.frames', 'sw:attest.step', 'sw:tok.dup', 'sw:frame.range'])
P('P09', [('limits', 'asan', 3000, 60000), ('mutated', 'asan', 2500, 50000), ('stages', 'asan', 1200, 24000), ('attest_mut', 'asan', 1200, 24000), ('tokens_many', 'asan', 400, 8000),
          ('valid', 'asan', 600, 12000), ('big', 'asan', 60, 1500), ('huge', 'asan', 12, 400), ('attest', 'asan', 500, 10000)],
  bad('count.*', 'size.*', 'limit.*', 'order*', 'tok.*', 'smallchunk', 'data.short', 'short', 'trailing', 'nocmd') +
  ['refused:' + t for t in ('sign.*', 'attest.*', 'silent.*', 'consent.*', 'output.*', 'signature')] + ['silent:*'],
  ['sw:' + t for t in ('count.tokens', 'count.data', 'count.inputs0', 'count.outputs0', 'size.tree', 'size.regs', 'size.ext', 'limit.tokens', 'limit.tree', 'limit.regs',
                       'limit.ext', 'limit.table', 'order', 'order.output', 'order.confirm', 'tok.dup', 'tok.index', 'tok.short', 'smallchunk', 'data.short', 'short', 'trailing', 'signature')])
P('P10', [('isolation', 'asan', 800, 16000), ('stale', 'asan', 1600, 40000), ('wrong_id', 'asan', 1700, 34000), ('several', 'asan', 400, 8000), ('stages', 'asan', 800, 16000), ('rejecting', 'asan', 600, 12000), ('mutated', 'asan', 500, 10000)],
  bad('nocmd', 'session') + ['*:nocmd', '*:session', 'isolation:*'],
  ['history', 'sw:nocmd', 'sw:session', 'sw:signature', 'wrongid:*', 'wrongid:20.02', 'wrongid:21.17', 'wrongid:21.20'], control=('isolation',), relabel='isolation')
# ---- keys and addresses
P('P11', [('paths', 'asan', 2000, 40000), ('change_paths', 'asan', 1200, 24000), ('address', 'asan', 300, 6000), ('extpub', 'asan', 300, 6000), ('hostile', 'asan', 300, 8000)],
  bad('path.*', 'net.*', 'pathlen', 'longpath') + ['derive:*', 'data:extpubkey', 'data:address', 'screen:*.path', 'data:signature', 'refused:consent.sign', 'refused:consent.extpubkey', 'refused:consent.address', 'refused:extpubkey', 'refused:address', 'refused:sign.change', 'refused:silent.change'],
  ['sw:path.account', 'sw:path.address', 'sw:path.sign', 'sw:path.change', 'sw:net.sign', 'sw:net.address', 'derived'])
P('P12', [('address', 'asan', 2500, 50000), ('address', 'asan_s', 300, 6000), ('paths', 'asan', 600, 12000), ('consent', 'asan', 300, 6000)],
  ['data:address', 'screen:address.*', 'refused:address', 'refused:consent.address', 'silent:consent.address', 'accepted:net.address', 'prompted:net.address', 'response:address*', 'noprompt:consent.address', 'accepted:deny', 'errdata:deny'],
  ['sw:address', 'screen:address.text', 'screen:address.path', 'sw:net.address'])
P('P13', [('extpub', 'asan', 2500, 50000), ('paths', 'asan', 600, 12000), ('consent', 'asan', 400, 8000)],
  ['data:extpubkey', 'screen:extpubkey.*', 'refused:extpubkey', 'refused:consent.extpubkey', 'silent:consent.extpubkey', 'noprompt:consent.extpubkey', 'prompted:extpubkey', 'accepted:deny', 'errdata:*'],
  ['sw:extpubkey', 'screen:extpubkey.path', 'prompt:consent.extpubkey'])
P('P14', [('consent', 'asan', 2500, 50000), ('extpub', 'asan', 400, 8000), ('address', 'asan', 400, 8000), ('attest', 'asan', 400, 8000), ('hostile', 'asan', 300, 6000), ('stale', 'asan', 300, 6000), ('valid', 'asan', 300, 6000)],
  ['noprompt:consent.*', 'accepted:deny', 'accepted:busy', 'prompted:extpubkey', 'prompted:address', 'prompted:attest.session', 'screen:*.application', 'response:*', 'errdata:*'],
  ['prompt:consent.extpubkey', 'prompt:consent.address', 'prompt:consent.attest', 'prompt:consent.sign', 'sw:deny', 'sw:busy', 'screen:extpubkey.application', 'screen:address.application',
   'screen:attest.application', 'screen:sign.application', 'sw:extpubkey', 'sw:address', 'sw:attest.session'])
# ---- the device as a whole
P('P15', [('headers', 'asan', 600, 12000), ('headers', 'asan_d', 60, 2000), ('sweep', 'asan', 8, 256), ('mutated', 'asan', 800, 16000), ('hostile', 'asan', 300, 8000), ('limits', 'asan', 500, 10000), ('paths', 'asan', 300, 6000), ('frames', 'asan', 300, 6000),
          ('attest_mut', 'asan', 400, 8000), ('overflow', 'asan', 300, 6000), ('forged', 'asan', 600, 12000), ('noisy', 'asan', 400, 8000)],
  ['status:*', 'errdata:*', 'data:version', 'data:name', 'refused:version', 'refused:name'] + bad('hdr.*', 'busy') + ['silent:hdr.*', 'silent:version', 'silent:name', 'busy:spurious', 'disturbed:*'],
  ['sw:hdr.cla', 'sw:hdr.ins', 'sw:hdr.length', 'sw:hdr.lc', 'sw:hdr.p1p2', 'sw:hdr.p2sub', 'sw:hdr.subcmd', 'sw:version', 'sw:name', 'sw:busy', 'sw:session', 'sw:nocmd', 'sw:order', 'noise'], control=('noisy',), relabel='disturbed')
P('P16', [('hostile', 'plain', 1500, 40000), ('nav', 'plain', 1500, 30000), ('mutated', 'plain', 1000, 20000), ('headers', 'plain', 200, 4000), ('exhaustive_nav', 'plain', 600, 12000), ('fault', 'plain', 1200, 24000), ('fault_enum', 'plain', 1200, 9600),
          ('tokens_many', 'plain', 200, 4000), ('big', 'plain', 40, 1000)],
  ['response:*', 'silent:*', 'hang:*', 'liveness:*', 'crash:*', 'assert:*', 'nav:disturbed', 'status:busy', 'noprompt:busy', 'accepted:busy', 'prompted:busy', 'refused:version', 'refused:name', 'nav:unreachable', 'busy:spurious'],
  ['sw:busy', 'about-open', 'prompt:consent.*', 'sw:version', 'sw:deny', 'sw:signature', 'none:press.noop'])
P('P17', [('huge', 'asan', 12, 400), ('hostile', 'asan_d', 200, 6000), ('valid', 'asan_d', 100, 2000), ('hostile', 'asan', 2500, 60000), ('mutated', 'asan', 1000, 20000), ('tokens_many', 'asan', 400, 8000), ('big', 'asan', 60, 1500), ('limits', 'asan', 500, 10000), ('attest_mut', 'asan', 600, 12000),
          ('headers', 'asan', 100, 2000), ('overflow', 'asan', 600, 12000), ('nav', 'asan_s', 400, 8000), ('hostile', 'asan_s', 300, 8000), ('fault', 'asan', 600, 12000), ('frames', 'asan', 300, 6000), ('forged', 'asan', 400, 8000), ('change', 'asan', 300, 6000),
          ('exhaustive_nav', 'asan', 400, 8000), ('paths', 'asan', 300, 6000)],
  ['crash:*', 'assert:*', 'hash:*', 'ux:*'],
  ['sw:signature', 'sw:limit.tokens', 'sw:limit.table', 'sw:count.tokens', 'sw:size.tree', 'sw:short', 'screen:summary.token', 'screen:output.token', 'fault:*'])
P('P18', [('hostile', 'msan', 1500, 40000), ('valid', 'msan', 500, 10000), ('mutated', 'msan', 800, 16000), ('tokens_many', 'msan', 200, 4000), ('fault', 'msan', 800, 16000), ('nav', 'msan', 400, 8000), ('attest_mut', 'msan', 500, 10000),
          ('frames', 'msan', 300, 6000), ('paths', 'msan', 400, 8000), ('change', 'msan', 300, 6000), ('headers', 'msan', 60, 1500), ('sessions', 'msan', 60, 1500)],
  ['crash:*'],
  ['sw:signature', 'sw:extpubkey', 'sw:address', 'sw:attest.frame', 'screen:summary.token', 'screen:output.token', 'fault:*'])
P('P19', [('valid', 'residue', 250, 8000), ('valid', 'residue_o2', 300, 8000), ('consent', 'residue', 250, 6000), ('consent', 'residue_o2', 250, 6000), ('fault', 'residue', 400, 10000), ('fault', 'residue_o2', 400, 10000),
          ('stale', 'residue', 300, 8000), ('rejecting', 'residue', 250, 6000), ('nonces', 'residue', 40, 1500), ('fault_enum', 'residue', 1200, 9600), ('several', 'residue_o2', 80, 3000), ('hostile', 'residue', 150, 5000), ('paths', 'residue', 150, 3000)],
  ['residue:*'],
  ['scan', 'secret:0', 'secret:1', 'secret:2', 'secret:4', 'chain-allowed', 'chain-given', 'nonce-live', 'sessionkey-found', 'sw:signature', 'fault:*'])
def vary(tot):
    ids = tot['ids']
    n = sum(ids.values())
    out = []
    if n >= 1000:
        if len(ids) < 200: out.append(('sessionid:variety', 'only %d different session identifiers in %d sessions' % (len(ids), n)))
        top, k = ids.most_common(1)[0]
        if k > n / 10: out.append(('sessionid:bias', 'session identifier %d in %d of %d sessions' % (top, k, n)))
    return out
P('P20', [('nonces', 'asan', 250, 6000), ('fault_enum', 'plain', 1200, 9600), ('sessions', 'asan', 300, 6000), ('boots', 'asan', 250, 5000), ('several', 'asan', 250, 5000), ('attest', 'asan', 300, 3000)],
  ['nonce:*', 'bootkey:*', 'data:*.session', 'sessionid:*', 'data:attest.frame'],
  ['sw:signature', 'sw:sign.session', 'sw:attest.session', 'sw:attest.frame', 'nonce-checked', 'nonce-toolarge', 'nonce-zero', 'boot-checked', 'id-repeated-draw', 'id-followed'], aggregate=vary)
P('P21', [('fault_enum', 'asan', 3200, 9600), ('fault', 'asan', 1500, 30000)],
  ['*'], ['fault:*', 'enum:*:fired', 'enum:*:beyond', 'enum-many:1', 'enum-many:2', 'enum-many:3', 'enum-many:1w', 'enum-many:2w', 'enum-many:3w', 'enum-many:next', 'enum-many:nextw', 'faulted:*'], control=('fault_enum', 'fault'), level='fault_enumeration')
P('P22', [('nav', 'asan', 2500, 50000), ('exhaustive_nav', 'asan', 2500, 50000), ('nav', 'asan_s', 400, 8000), ('consent', 'asan', 300, 6000), ('tokens_many', 'asan', 200, 4000), ('fault', 'asan', 300, 6000)],
  ['nav:*', 'screen:*', 'response:*', 'hang:*', 'refused:menu', 'liveness:*', 'refused:page.error', 'accepted:page.error', 'silent:page.error', 'busy:spurious',
   'accepted:deny', 'silent:deny', 'refused:*.session', 'silent:*.session', 'refused:output.approved', 'silent:output.approved', 'refused:extpubkey', 'silent:extpubkey', 'refused:address', 'silent:address', 'refused:signature', 'silent:signature'],
  ['longtext', 'screen:output.approve', 'screen:confirm.reject', 'screen:address.approve', 'screen:extpubkey.reject', 'screen:attest.approve', 'screen:menu', 'home-after-decision', 'none:press.noop', 'sw:busy'])
# ---- the library below the commands
# "instead": when the harness no longer fits the interfaces of the library (they are internal), what the device does decides
def N(id, work, instead):
    work = work + [(h, 'asan32', q // 3, t // 3) for h, v, q, t in work if v == 'asan']
    PROPS[id] = dict(native=work, assumptions=['The definitions written in native/ are right.', 'The emulated SDK functions (buffers, BIP32 text, number reading) behave like the Ledger SDK.'],
                     instead=dict(work=[(w, 'asan', n, n * 20) for w, n in instead[0]], own=instead[1] + ['crash:*', 'assert:*', 'hash:*'], focus=['sw:signature'], rule=RULE))
SIGNED = ['data:signature', 'data:attest.*', 'refused:sign.*', 'refused:attest.*', 'refused:signature', 'refused:silent.*', 'refused:consent.*']
N('P23', [('codec', 'asan', 6000000, 480000000), ('codec', 'asan_o2', 2000000, 160000000), ('codec', 'msan', 1000000, 80000000)],
  ([('valid', 2000), ('big', 100), ('attest', 2000), ('mutated', 1000)], SIGNED))
N('P24', [('buffers', 'asan', 2500000, 160000000), ('buffers', 'asan_o2', 500000, 40000000), ('buffers', 'msan', 500000, 32000000)],
  ([('valid', 2000), ('big', 100), ('attest_mut', 2000), ('mutated', 2000), ('hostile', 1000)], SIGNED + bad('short', 'data.short', 'size.*', 'smallchunk')))
N('P25', [('paths', 'asan', 4000000, 320000000), ('paths', 'asan_o2', 1000000, 80000000), ('paths', 'msan', 500000, 40000000)],
  ([('paths', 2000), ('change_paths', 2000), ('change', 2000), ('address', 500), ('extpub', 500)],
   bad('path.*', 'pathlen', 'longpath') + ['derive:*', 'screen:*.path', 'screen:output.change', 'refused:*', 'noprompt:consent.output*', 'prompted:silent.*']))
N('P26', [('serial', 'asan', 480000, 24000000), ('serial', 'asan_o2', 60000, 4000000), ('serial', 'msan', 60000, 4000000)],
  ([('valid', 2000), ('big', 100), ('limits', 2000), ('stages', 2000), ('mutated', 2000), ('attest_mut', 2000), ('tokens_many', 300)],
   SIGNED + bad('order*', 'count.*', 'size.*', 'tok.*', 'limit.*', 'smallchunk', 'data.short', 'short') + ['status:order*', 'status:count.*', 'status:size.*', 'status:tok.*', 'status:limit.*']))
N('P27', [('trees', 'asan', 4000000, 160000000), ('trees', 'asan_o2', 1000000, 40000000), ('trees', 'msan', 500000, 24000000)],
  ([('valid', 3000), ('change', 1000), ('address', 1000)], ['data:address', 'data:signature', 'screen:output.*', 'screen:address.text', 'refused:output.*', 'noprompt:consent.output*', 'prompted:silent.*', 'refused:consent.output*']))
N('P28', [('numbers', 'asan', 10000000, 800000000), ('numbers', 'asan_o2', 5000000, 400000000)],
  ([('overflow', 4000), ('tokens_many', 600)], bad('overflow*') + ['screen:summary.*', 'refused:*', 'data:signature']))
