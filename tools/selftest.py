'''Checks the reference models against published vectors (and compiles the
framework). Reads nothing of /repo.'''
import compileall
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import model as M      # noqa: E402

H = bytes.fromhex
bad = []


def eq(what, got, want):
    if got != want:
        bad.append(what)
        print('SELFTEST', what, got, want)


# BLAKE, final-round submission document
for bits, w in ((224, '4504CB0314FB2A4F7A692E696E487912FE3F2468FE312C73A5278'
                      'EC5'),
                (256, '0CE8D4EF4DD7CD8D62DFDED9D4EDB0A774AE6A41929A74DA23109'
                      'E8F11139C87'),
                (384, '10281F67E135E90AE8E882251A355510A719367AD70227B137343'
                      'E1BC122015C29391E8545B5272D13A7C2879DA3D807'),
                (512, '97961587F6D970FABA6D2478045DE6D1FABD09B61AE50932054D5'
                      '2BC29D31BE4FF9102B9F69E2BBDB83BE13D4B9C06091E5FA0B48B'
                      'D081B634058BE0EC49BEB3')):
    eq(f'blake{bits}', M.blake(bits, b'\0').hex().upper(), w)
eq('blake256 two blocks', M.blake(256, bytes(72)).hex().upper(),
   'D419BAD32D504FB7D44D460C42C5593FE544FA4C135DEC31E21BD9ABDCC22D41')

# RIPEMD-160
eq('rmd160', M.rmd160(b'abc').hex(),
   '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc')

# BIP173 / BIP142
eq('bech32 p2wpkh', M.make_address(
    'bitcoin_main', 'p2wpkh',
    H('751e76e8199196d454941c45d1b3a323f1433bd6')),
   'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4')
eq('bech32 p2wsh', M.make_address(
    'bitcoin_test', 'p2wsh', H('1863143c14c5166804bd19203356da136c985678cd4d27'
                               'a1b8c6329604903262')),
   'tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sl5k7')
eq('base58 p2pkh', M.make_address(
    'bitcoin_main', 'p2pkh', H('62e907b15cbf27d5425399ebf6f0fb50ebb88f18')),
   '1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa')
eq('cashaddr', M.make_address(
    'bitcoin_cash_main', 'cash_pkh',
    H('76a04053bda0a88bda5177b86a15c3b29f559873')).split(':')[-1],
   'qpm2qsznhks23z7629mms6s4cwef74vcwvy22gdx6a')
eq('bad bech32', M.destination(
    'bitcoin_main', 'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5'), [])

# BIP143: native P2WPKH and P2SH-P2WPKH examples
RAW = ('0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4'
       'ad969f0000000000eeffffffef51e1b804cc89d182d279655c3aa89e815b1b309fe28'
       '7d9b2b55d57b90ec68a0100000000ffffffff02202cb206000000001976a9148280b3'
       '7df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143bde42d'
       'bee7e4dbe6a21b2d50ce2f0167faa815988ac11000000')


def read(raw):
    m, n = M.parse('btc', H(raw))
    eq('length', n, len(raw) // 2)
    for i in m['ins']:
        i['stack'], i['redeem'] = i.pop('sig'), ''
    return m


m = read(RAW)
eq('parse', M.ser(m).hex(), RAW)
m['flag'] = True
m['wits'] = [[], []]
eq('bip143 p2wpkh', M.sighash(
    m, 'bitcoin_main', 1, 1, False,
    H('1976a9141d0f172a0ecb48aee1be1f2687d2963ae33f71a188ac'),
    (600000000).to_bytes(8, 'little')).hex(),
   'c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670')

# genesis coinbase id
GEN = ('01000000010000000000000000000000000000000000000000000000000000000000'
       '000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f323'
       '03039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e642062'
       '61696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678af'
       'db0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4c'
       'ef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000')
g = read(GEN)
eq('genesis id', M.ids(g, 'bitcoin_main')['tx_id'],
   '4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b')

if not compileall.compile_dir(os.path.join(HERE, 'sim'), quiet=1):
    bad.append('compile')
print('selftest:', 'FAILED ' + ', '.join(bad) if bad else 'ok')
sys.exit(bool(bad))
