'''Generator of calls over the whole public API. A call is a JSON expression
(see lib.ev). Arguments come from a small pool per run, so the same arguments
meet different networks, histories and threads.'''
from sim import gen, model
from sim.gen import rb
from sim.lib_paths import CLASS_PATH
from sim.model import NETS, fam_of


class Pool:
    def __init__(self, rng, nets, big=False):
        self.rng = rng
        self.nets = nets
        self.bytes = [rb(rng, n).hex() for n in
                      (0, 1, 4, 8, 20, 32, 33, 65,
                       rng.choice([55, 63, 64, 75, 76, 77, 111, 119, 127,
                                   128, 200, 252, 253, 255, 256, 300]))]
        self.hashes = [rb(rng, 20).hex(), rb(rng, 32).hex()]
        self.pubkeys = ['02' + rb(rng, 32).hex(), '04' + rb(rng, 64).hex()]
        self.scripts = [gen.good_script(rng), gen.human_script(rng),
                        gen.human_script(rng)]
        if rng.chance(.4):
            self.scripts.append(gen.wide_script(rng, rng.choice(nets)))
        self.raw = [gen.out_script(rng) for _ in range(3)]
        if rng.chance(.4):
            self.raw.append(gen.wide_raw(rng))
        self.raw += [model.script_for(k, rb(rng, 32 if k == 'p2wsh' else 20))
                     .hex() for k in ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh')]
        self.ints = [0, 1, 0xfc, 0xfd, rng.choice([0xffff, 0x10000,
                                                   0xffffffff, 2 ** 32,
                                                   2 ** 64 - 1]),
                     rng.getrandbits(rng.choice([7, 15, 31, 40]))]
        self.addrs = []
        for n in nets[:3]:
            for k in model.kinds(n):
                h = bytes.fromhex(self.hashes[1 if k == 'p2wsh' else 0])
                self.addrs.append(model.make_address(n, k, h))
        rng.shuffle(self.addrs)
        self.addrs = self.addrs[:6]
        for a in list(self.addrs[:2]):
            i = rng.randrange(len(a))
            self.addrs.append(a[:i] + rng.choice('qpz1A2x') + a[i + 1:])
        if self.addrs and rng.chance(.3):
            self.addrs.append(self.addrs[0].upper())
        # transactions per family among the networks of the run
        self.txs = {}
        for f in sorted(set(fam_of(n) for n in nets)):
            n = [x for x in nets if fam_of(x) == f][0]
            self.txs[f] = [gen.tx(rng, n, ins=rng.randint(1, 2),
                                  outs=rng.randint(1, 3))
                           for _ in range(2)]
            if big:
                self.txs[f].append(gen.tx(rng, n, True, True))
        # Tx objects make sense on every network
        if 'btc' not in self.txs:
            self.txs['btc'] = [gen.btc(rng, 'bitcoin_main',
                                       ins=rng.randint(1, 2), outs=2)]
        self.codes = [gen.script_code(rng) for _ in range(2)]
        self.humans = self.scripts


class Mut:
    'choice of bytes or bytearray arguments'

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def __call__(self):
        return self.rng.chance(self.p)


class Calls:
    def __init__(self, rng, pool, mut=.1, seqs='lt', heavy=True):
        from sim import lib
        self.lib = lib
        self.rng, self.p, self.mutp, self.heavy = rng, pool, mut, heavy
        self.seqs = seqs

    # ---- small helpers
    def b(self, h):
        return {'ba': h} if self.rng.chance(self.mutp) else {'h': h}

    def one(self, xs):
        return self.rng.choice(xs)

    def build(self):
        return self.lib.Build(Mut(self.rng, self.mutp),
                              self.rng.choice(self.seqs))

    def f(self, path, *a, **k):
        d = {'f': path, 'a': list(a)}
        if k:
            d['k'] = k
        return d

    def m(self, on, name, *a, **k):
        d = {'m': name, 'on': on, 'a': list(a)}
        if k:
            d['k'] = k
        return d

    def fam(self, net):
        f = fam_of(net)
        if f == 'btc' or self.rng.chance(.75):
            return f if f in self.p.txs else 'btc'
        return self.one(sorted(self.p.txs))     # wrong chain or plain Tx

    # ---- whole calls
    def call(self, net):
        k = self.rng.pick([(3, 'utils'), (2, 'script'), (2, 'base58'),
                           (1.5 if NETS[net]['hrp'] else .3, 'bech32'),
                           (2.5 if NETS[net]['cash_prefix'] else .2, 'cash'), (4, 'addr'),
                           (4, 'builder'), (2, 'simple'), (3, 'part'),
                           (3, 'tx'), (4, 'decode'), (4, 'sighash'),
                           (3, 'method'), (2, 'std'), (1.5, 'varint'),
                           (1, 'blake'), (1, 'session')])
        return getattr(self, 'c_' + k)(net)

    def c_session(self, net):
        k = self.rng.randrange(3)
        if k == 0:
            return self.f('riemann.get_current_network_name')
        if k == 1:
            return self.f('riemann.get_current_network')
        return self.f('riemann.select_network',
                      self.one(['', 'no_such_network', 'bitcoin',
                                'BITCOIN_MAIN', None, 'decred', 'zcash',
                                'zcash_sapling', 'decred_', 'bcash_mainn',
                                ' ' + net, net + '_x', net.upper(),
                                net.split('_')[0]]))


    def c_utils(self, net):
        r, p = self.rng, self.p
        n = r.choice(['i2le', 'i2le_padded', 'i2le_script', 'le2i', 'be2i',
                      'i2be', 'i2be_padded', 'change_endianness', 'rmd160',
                      'sha256', 'hash160', 'hash256', 'hash160', 'hash256',
                      'blake256', 'blake2b', 'blake2s'])
        if n in ('i2le', 'i2be', 'i2le_script'):
            x = self.one(p.ints)
            return self.f('utils.' + n, -x if (n == 'i2le_script'
                                               and r.chance(.3)) else x)
        if n.endswith('padded'):
            return self.f('utils.' + n, self.one(p.ints),
                          self.one([1, 2, 4, 8]))
        if n in ('le2i', 'be2i'):
            return self.f('utils.' + n, self.b(self.one(p.bytes)),
                          r.chance(.3))
        if n in ('blake2b', 'blake2s'):
            kw = {}
            if r.chance(.6):
                kw['digest_size'] = 32
            if r.chance(.5):
                kw['person'] = {'h': rb(r, 8).hex()} if r.chance(.5) else {
                    'h': self.one(['5a63617368536967', '00' * 8])}
            return self.f('utils.' + n, {'h': self.one(p.bytes)}, **kw)
        return self.f('utils.' + n, self.b(self.one(p.bytes)))

    def c_script(self, net):
        n = self.one(['serialize', 'hex_serialize', 'deserialize',
                      'hex_deserialize'])
        if n in ('serialize', 'hex_serialize'):
            return self.f('ser.' + n, self.one(self.p.scripts))
        if n == 'deserialize':
            return self.f('ser.' + n, self.b(self.one(self.p.raw)))
        return self.f('ser.' + n, self.one(self.p.raw))

    def c_base58(self, net):
        n = self.one(['encode', 'decode', 'encode_with_checksum',
                      'decode_with_checksum', 'has_checksum', 'encode',
                      'decode'])
        if n.startswith('enc'):
            a = [{'h': self.one(self.p.bytes)}]
        else:
            a = [self.one(self.p.addrs)]
        if n in ('encode', 'decode') and self.rng.chance(.4):
            a.append(False)
        return self.f('base58.' + n, *a)

    def c_bech32(self, net):
        r = self.rng
        k = r.randrange(4)
        if k == 0:
            return self.f('bech32.encode',
                          {'h': self.one(['0014', '0020', '5114', ''])
                           + self.one(self.p.hashes)})
        if k == 1:
            return self.f('bech32.decode', self.one(self.p.addrs))
        hrp = self.one([NETS[n]['hrp'] or 'bc' for n in self.p.nets])
        if k == 2:
            return self.f('bech32.segwit_encode', hrp,
                          self.one([0, 0, 1, 16, 17]),
                          {'h': self.one(self.p.hashes)})
        return self.f('bech32.segwit_decode', hrp, self.one(self.p.addrs))

    def c_cash(self, net):
        if self.rng.chance(.5):
            return self.f('cashaddr.encode',
                          {'h': self.one(['00', '08', ''])
                           + self.one(self.p.hashes)})
        return self.f('cashaddr.decode', self.one(self.p.addrs))

    def c_addr(self, net):
        r, p = self.rng, self.p
        n = r.choice(['make_sh_address', 'make_p2wsh_address',
                      'make_p2sh_address', 'make_legacy_p2sh_address',
                      'make_pkh_address', 'make_p2wpkh_address',
                      'make_p2pkh_address', 'make_legacy_p2pkh_address',
                      'parse', 'to_output_script', 'from_output_script',
                      'parse_hash', 'parse', 'to_output_script',
                      'from_output_script', 'parse_hash'])
        if 'sh_address' in n or 'p2wsh' in n:
            a = [self.one(p.scripts)]
        elif 'pkh' in n:
            a = [self.b(self.one(p.pubkeys))]
        elif n == 'from_output_script':
            a = [self.b(self.one(p.raw))]
            return self.f('addr.' + n, *a,
                          **({'cashaddr': False} if r.chance(.3) else {}))
        else:
            a = [self.one(p.addrs)]
        k = {}
        if n in ('make_sh_address', 'make_pkh_address'):
            if r.chance(.5):
                k['witness'] = True
            if r.chance(.3):
                k['cashaddr'] = False
        return self.f('addr.' + n, *a, **k)

    def outpoint(self, net):
        t = rb(self.rng, 32).hex() if self.rng.chance(.5) \
            else self.p.hashes[1]
        if fam_of(net) == 'dcr' and self.rng.chance(.8):
            return self.f('tb.make_outpoint', self.b(t),
                          self.one([0, 1, 7]), self.one([0, 1]))
        return self.f('tb.make_outpoint', self.b(t), self.one([0, 1, 7]))

    def output(self, net):
        r, p = self.rng, self.p
        k = r.randrange(6)
        v = self.one([0, 1, 546, 10 ** 8, p.ints[5]])
        if k == 0:
            return self.f('tb.make_p2sh_output', v, p.scripts[0])
        if k == 1:
            return self.f('tb.make_pkh_output', v, self.b(self.one(p.pubkeys)))
        if k == 2 and NETS[net]['segwit']:
            return self.f('tb.make_p2wpkh_output', v,
                          self.b(self.one(p.pubkeys)))
        if k == 3 and NETS[net]['segwit']:
            return self.f('tb.make_p2wsh_output', v, p.scripts[0])
        if k == 4:
            return self.f('tb.make_op_return_output',
                          self.b(self.one(p.bytes)))
        return self.f('tb.make_p2pkh_output', v, self.b(self.one(p.pubkeys)))

    def c_builder(self, net):
        r, p = self.rng, self.p
        n = r.choice(['make_sh_script_pubkey', 'make_sh_output_script',
                      'make_pkh_output_script', 'make_p2sh_output_script',
                      'make_p2pkh_output_script', 'make_p2wsh_output_script',
                      'make_p2wpkh_output_script', 'output', 'sh_output',
                      'make_empty_witness', 'make_witness_stack_item',
                      'make_witness', 'make_decred_witness', 'outpoint',
                      'make_script_sig', 'input', 'input', 'make_tx',
                      'make_tx', 'make_tx', 'length_prepend'])
        if n == 'make_sh_script_pubkey':
            return self.f('tb.' + n, self.b(self.one(p.raw)), r.chance(.4))
        if n in ('make_p2sh_output_script', 'make_p2wsh_output_script'):
            return self.f('tb.' + n, self.one(p.scripts))
        if n in ('make_p2pkh_output_script', 'make_p2wpkh_output_script'):
            return self.f('tb.' + n, self.b(self.one(p.pubkeys)))
        if n == 'make_sh_output_script':
            return self.f('tb.' + n, self.one(p.scripts), r.chance(.4))
        if n == 'make_pkh_output_script':
            return self.f('tb.' + n, self.b(self.one(p.pubkeys)),
                          r.chance(.4))
        if n == 'output':
            return self.output(net)
        if n == 'sh_output':
            return self.f('tb.make_sh_output', 5, self.one(p.scripts),
                          r.chance(.4))
        if n == 'make_empty_witness':
            return self.f('tb.' + n)
        if n == 'make_witness_stack_item' or n == 'length_prepend':
            return self.f('tb.' + n, self.b(self.one(p.bytes)))
        if n == 'make_witness':
            return self.f('tb.' + n, {r.choice(self.seqs): [
                self.b(self.one(p.bytes)) for _ in range(r.randint(0, 3))]})
        if n == 'make_decred_witness':
            return self.f('tb.' + n, self.b(rb(r, 8).hex()), self.b('00' * 4),
                          self.b('ff' * 4), self.b(self.one(p.raw)),
                          self.b(self.one(p.raw)))
        if n == 'outpoint':
            return self.outpoint(net)
        if n == 'make_script_sig':
            return self.f('tb.' + n, p.scripts[0], self.one(p.scripts))
        if n == 'input':
            return self.input(net)
        return self.make_tx(net)

    def input(self, net):
        r, p = self.rng, self.p
        k = r.randrange(3)
        seq = self.one([0, 1, 0xfffffffe, 0xffffffff])
        if k == 0:
            return self.f('tb.make_legacy_input', self.outpoint(net),
                          self.b(self.one(p.raw)), self.b(self.one(p.raw)),
                          seq)
        if k == 1 and fam_of(net) == 'dcr':
            return self.f('tb.make_decred_input', self.outpoint(net), seq)
        return self.f('tb.make_witness_input', self.outpoint(net), seq)

    def make_tx(self, net):
        r = self.rng
        f = fam_of(net)
        s = r.choice(self.seqs)
        ins = {s: [self.input(net) for _ in range(r.randint(1, 2))]}
        outs = {s: [self.output(net) for _ in range(r.randint(1, 2))]}
        k = dict(version=r.choice([1, 2]), tx_ins=ins, tx_outs=outs,
                 lock_time=self.one([0, 500000000]))
        if f == 'ow' or f == 'sap' or f == 'dcr':
            k['expiry'] = self.one([0, 37])
        if f == 'sap':
            k.update(tx_shielded_spends={s: []}, tx_shielded_outputs={s: []},
                     tx_joinsplits={s: []})
        elif f == 'btc' and r.chance(.5):
            k['tx_witnesses'] = {s: [
                self.f('tb.make_empty_witness') for _ in ins[s]]}
        elif f == 'spr' and r.chance(.3):
            k['tx_joinsplits'] = {s: []}
        return self.f('tb.make_tx', **k)

    def c_simple(self, net):
        r, p = self.rng, self.p
        k = r.randrange(5)
        if k == 0:
            return self.f('simple.output', self.one([0, 1, 10 ** 8]),
                          self.one(p.addrs))
        a = [p.hashes[1], self.one([0, 3])]
        if fam_of(net) == 'dcr':
            a.append(self.one([0, 1]))
        if k == 1:
            return self.f('simple.outpoint', *a)
        kw = {}
        if r.chance(.5):
            kw['sequence'] = self.one([0, 1, 0xffffffff])
        i = self.f('simple.unsigned_input',
                   self.f('simple.outpoint', *a), **kw)
        if k == 2:
            return i
        s = r.choice(self.seqs)
        kw = {}
        if r.chance(.4):
            kw['version'] = 1
        if r.chance(.4):
            kw['lock_time'] = 500000
        return self.f('simple.unsigned_legacy_tx' if k == 3
                      else 'simple.unsigned_witness_tx',
                      {s: [i]}, {s: [self.output(net)]}, **kw)

    def mtx(self, net):
        f = self.fam(net)
        return self.one(self.p.txs[f])

    def c_part(self, net):
        r = self.rng
        f = self.fam(net)
        kind = r.choice(gen.PART_KINDS[f])
        m = self.one(self.p.txs[f])
        v = self.part_of(m, kind)
        e = getattr(self.build(), kind)(v)
        if kind == 'txin' and r.chance(.2):
            return self.m(e, 'is_p2sh')
        if r.chance(.03):
            return self.f('shared.ByteData.from_bytes',
                          self.b(self.one(self.p.bytes)))
        k = r.randrange(4)
        if k == 0 and kind != 'item':
            return self.m(e, 'copy') if kind not in (
                'sproof', 'sjs', 'gproof', 'gjs', 'ss', 'so') else e
        if k == 1 and kind in model.PARTS:
            raw = model.PARTS[kind][0](v).hex()
            return self.f(CLASS_PATH[kind] + '.from_bytes', self.b(raw))
        if k == 2 and kind in model.PARTS:
            raw = model.PARTS[kind][0](v).hex()
            n = 2 * r.randint(0, len(raw) // 2)
            return self.f(CLASS_PATH[kind] + '.from_hex', raw[:n])
        return e

    def part_of(self, m, kind):
        'a part of the kind, from the transaction or fresh'
        r = self.rng
        src = {'txin': 'ins', 'dtxin': 'ins', 'outpoint': 'ins',
               'doutpoint': 'ins', 'txout': 'outs', 'dtxout': 'outs',
               'dwit': 'wits', 'wit': 'wits', 'sjs': 'js', 'gjs': 'js',
               'ss': 'ss', 'so': 'so'}.get(kind)
        if src and m.get(src) and (kind != 'wit' or m['fam'] == 'btc'):
            return self.one(m[src])
        return gen.part(r, kind)

    def c_tx(self, net):
        return self.build().tx(self.mtx(net))

    def c_decode(self, net):
        r = self.rng
        m = self.mtx(net)
        raw = model.ser(m).hex()
        k = r.randrange(8)
        if k == 0:
            raw = raw[:2 * r.randrange(len(raw) // 2)]
        elif k == 1:
            i = 2 * r.randrange(len(raw) // 2)
            raw = raw[:i] + rb(r, 1).hex() + raw[i + 2:]
        elif k == 2:
            raw += self.one(self.p.bytes)
        f = m['fam']
        if r.chance(.3):
            return self.f(CLASS_PATH[f] + '.from_hex', raw)
        return self.f(CLASS_PATH[f] + '.from_bytes', self.b(raw))

    def sighash_args(self, m, net):
        'name, positional, keyword arguments of a sighash call'
        r = self.rng
        f = m['fam']
        n = len(m['ins']) or 1
        i = r.randrange(n) if r.chance(.9) else n + r.randint(0, 2)
        code = self.b(self.one(self.p.codes))
        name = r.choice(['sighash_all', 'sighash_single'])
        acp = r.chance(.4)
        val = self.b(self.one(m['outs'])['value'] if m['outs']
                     else '00' * 8)
        if f == 'btc':
            return name, [i, code], dict(prevout_value=val,
                                         anyone_can_pay=acp)
        if f in ('spr', 'dcr'):
            return name, [i, code], dict(anyone_can_pay=acp)
        k = dict(anyone_can_pay=acp)
        if r.chance(.15):
            k.update(joinsplit=True, index=i, prevout_value=val,
                     script_code=code)
        else:
            k.update(index=i, prevout_value=val, script_code=code)
        return name, [], k

    def c_sighash(self, net):
        m = self.mtx(net)
        name, a, k = self.sighash_args(m, net)
        if m['fam'] == 'btc' and self.rng.chance(.15):
            return self.m(self.build().tx(m), 'segwit_sighash',
                          index=a[0], sighash_type=self.one([1, 3]),
                          prevout_value=k['prevout_value'], script=a[1],
                          anyone_can_pay=k['anyone_can_pay'])
        return self.m(self.build().tx(m), name, *a, **k)

    def method(self, e, m, net):
        'some method or attribute call on a transaction expression'
        r = self.rng
        k = r.randrange(9)
        f = m['fam']
        if k == 0:
            return self.m(e, 'copy')
        if k == 1:
            kw = {'lock_time': self.b(rb(r, 4).hex())}
            if r.chance(.5):
                s = r.choice(self.seqs)
                b = self.build()
                kw = {'tx_outs': {s: [
                    b.dtxout(o) if f == 'dcr' else b.txout(o)
                    for o in m['outs'][:1]]}}
            return self.m(e, 'copy', **kw)
        if k == 2:
            if f == 'dcr':
                return self.m(e, 'calculate_fee')
            return self.m(e, 'calculate_fee', {self.one(self.seqs): [
                self.one(self.p.ints) for _ in m['ins']]})
        if k == 3:
            if f == 'btc':
                return self.m(e, self.one(['no_witness', 'is_witness',
                                           'sighash_none']),
                              *([] if True else []))
            if f == 'dcr':
                return self.m(e, self.one(['prefix', 'witness', 'prefix_hash',
                                           'witness_hash', 'witness_signing',
                                           'witness_signing_hash']))
            if f in ('ow', 'sap') and r.chance(.3):
                return self.m(e, 'is_witness')
            return {'g': self.one(['tx_id', 'hsigs', 'primary_inputs']),
                    'on': e}
        if k == 4:
            return self.m(e, self.one(['hex', 'to_bytes', '__len__',
                                       '__repr__']))
        if k == 5:
            return self.m(e, 'find', self.b(self.one(self.p.bytes)[:4]))
        if k == 6:
            return self.m(e, '__format__', self.one(['x', 'X', '']))
        if k == 7:
            return self.m(e, self.one(['__eq__', '__ne__']), self.one([
                self.b(self.one(self.p.bytes)), e, 7]))
        return {'g': self.one(['tx_id', 'tx_id_le', 'tx_ins', 'tx_outs',
                               'lock_time', 'wtx_id', 'nope']), 'on': e}

    def c_method(self, net):
        m = self.mtx(net)
        return self.method(self.build().tx(m), m, net)

    def c_std(self, net):
        r = self.rng
        m = self.one(self.p.txs['btc'])
        b = self.build()
        k = r.randrange(7)
        if k == 6:
            return self.f('std.is_pubkey', self.one(
                self.p.pubkeys + ['OP_DUP', '04' + '11' * 32,
                                  '02' + '11' * 64]))
        if k == 0:
            return self.f('std.is_push_only', self.b(self.one(self.p.raw)))
        if k == 1:
            return self.f('std.is_op_return', b.txout(self.one(m['outs'])))
        # to a key, and to one or two of two
        keys = [bytes([len(x) // 2]).hex() + x for x in self.p.pubkeys]
        keyed = [keys[0] + 'ac', keys[1] + 'ac',
                 '51' + keys[0] + keys[1] + '52ae',
                 '52' + keys[1] + keys[0] + '52ae']
        if k == 2:
            return self.f('std.is_standard_output_type',
                          b.txout(dict(value='e803000000000000',
                                       script=self.one(self.p.raw + keyed))))
        if k == 3:
            return self.f('std.check_final', b.tx(m),
                          self.one([0, 500000]), self.one([0, 1600000000]))
        return self.f('std.' + self.one(['check_is_standard',
                                         'check_is_standard_tx',
                                         'check_tx_size_small']), b.tx(m))

    def c_varint(self, net):
        r = self.rng
        n = self.one(self.p.ints)
        k = r.randrange(3)
        ln = self.one([None, None, 3, 5, 9])
        e = self.f('shared.VarInt', n, **({} if ln is None
                                          else {'length': ln}))
        if k == 0:
            return e
        if k == 1:
            return self.m(e, 'copy')
        raw = self.one(['fd0100', 'fdfc00', 'fdfd00', 'fe01000000',
                        'feffff0000', 'ff0100000000000000', 'fd01',
                        'fc', 'feffffff7f', model.varint(n).hex()])
        return self.f('shared.VarInt.from_bytes', self.b(raw))

    def c_blake(self, net):
        bits = self.one([224, 256, 256, 384, 512])
        return self.m(self.f('blake256.BLAKE', bits),
                      self.one(['digest', 'final', 'hexdigest']),
                      {'h': self.one(self.p.bytes)})


KINDS = ['utils', 'script', 'base58', 'bech32', 'cash', 'addr', 'builder',
         'simple', 'part', 'tx', 'decode', 'sighash', 'method', 'std',
         'varint', 'blake']


# about as many functions of a kind as there are, so that one that is rarely
# called gets its turn too
WEIGHTS = dict(utils=14, script=18, base58=8, bech32=8, cash=8, addr=12,
               builder=34, simple=22, part=50, tx=32, decode=10, sighash=50,
               method=36, std=14, varint=3, blake=5)


COMMON = ('hex', 'to_bytes', '__len__', '__repr__', '__format__', '__eq__',
          '__ne__', 'find')


def fn_of(x):
    'the function a call expression calls, with the class that defines it'
    name = x.get('f') or x.get('m') or x.get('g')
    on = x.get('on')
    if isinstance(on, dict) and on.get('f') and 'm' in x \
            and name not in COMMON:
        return on['f'] + '().' + name
    return name


def one_function(rng, many=24, mut=0, nets=1):
    '''network, calls: many calls of one function, chosen about uniformly
    among all functions rather than by how often callers use them, and the
    calls of its kind'''
    kind = rng.pick([(w, k) for k, w in WEIGHTS.items()])
    net = net_for(rng, kind)
    if rng.chance(.6) and kind not in ('cash', 'bech32', 'script'):
        net = rng.choice(gen.BY_FAM[rng.choice(sorted(gen.BY_FAM))])
    names = [net] + [rng.choice(gen.NET_NAMES) for _ in range(nets - 1)]
    c = Calls(rng, Pool(rng, names), mut=mut)
    xs = [getattr(c, 'c_' + kind)(net) for _ in range(many)]
    xs = [x for x in xs if isinstance(x, dict) and fn_of(x)]
    name = rng.choice(sorted({fn_of(x) for x in xs}))
    same = [x for x in xs if fn_of(x) == name]
    return names, same, xs


def net_for(rng, kind):
    'a network on which calls of this kind do something'
    if kind == 'cash' and rng.chance(.85):
        return rng.choice(gen.CASH_NETS)
    if kind == 'bech32' and rng.chance(.85):
        return rng.choice(gen.SEGWIT_NETS)
    if kind == 'script' and rng.chance(.5):
        return rng.choice(gen.BY_FAM['dcr'])
    return gen.any_net(rng)
