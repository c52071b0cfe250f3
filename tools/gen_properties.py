'''Writes /verif/properties.jsonl (kept as a script only because JSON lines
are unpleasant to edit by hand).'''
import json, os, sys
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=['riemann/' + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))


TXF = ['tx/shared.py', 'tx/tx.py', 'tx/decred.py', 'tx/sprout.py',
       'tx/overwinter.py', 'tx/sapling.py', 'tx/zcash_shared.py']

prop('C01', 'Built transactions and their parts never change',
     'Once a transaction, or any part of one (outpoint, input, output, '
     'witness, proof, joinsplit, shielded spend or output, number prefix), '
     'has been built or decoded, its bytes, fields, ids and digests never '
     'change again. This holds whatever is done afterwards: writing to the '
     'buffers and lists it was built from, writing to anything it returned, '
     'assigning or deleting its attributes, extending it in place, using it '
     'in further calls (including calls that fail or are interrupted), or '
     'selecting another network.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of operations on a shared object by its builder, its '
     'holders and third parties, with failing and interrupted calls anywhere '
     'in it, for every class and network',
     'The tests assign one attribute on one object. Aliasing needs a '
     'particular argument type (bytearray, list) and a later write through '
     'the alias; there are dozens of class/field/alias/history combinations.',
     TXF + ['tx/tx_builder.py'],
     [('immutability switch on every byte wrapper', 'riemann/tx/shared.py ByteData._make_immutable, __setattr__, __delattr__'),
      ('vectors stored as tuples', 'riemann/tx/*.py constructors')],
     [('wrapped bytes', 'the serialized form', 'riemann/tx/shared.py ByteData._bytes')],
     ['to_bytes(), hex(), public attributes, tx_id/wtx_id, sighash results'])

prop('C02', 'Results depend only on the arguments and the selected network',
     'What a library call returns or raises depends only on its arguments and '
     'on the network selected at the time, never on what the session did '
     'before: earlier calls, earlier networks, failed calls, or changes the '
     'caller made to values it got back. A call changes nothing but its own '
     'result: it does not modify its arguments and does not change the '
     'selected network, and selecting an unknown network is refused and '
     'leaves the selection as it was.',
     ['histories', 'configurations', 'inputs'],
     'every session: any sequence of public calls (succeeding or failing), '
     'network selections and writes to earlier results, over all 72 networks',
     'Each test case resets the network and makes a handful of calls; hidden '
     'state shows only in particular sequences such as the same call under '
     'two networks, or after a failure.',
     ['__init__.py', 'utils.py', 'simple.py', 'encoding/addresses.py',
      'script/serialization.py', 'tx/tx_builder.py', 'networks/__init__.py',
      'networks/standard.py', 'blake256.py'] + TXF,
     [('one process-wide network, read at call time', 'riemann/__init__.py select_network, get_current_network'),
      ('no other module state', 'whole package')],
     [('network', 'the selected network class', 'riemann/__init__.py')],
     ['return value or exception class of every public call',
      'arguments after the call', 'get_current_network_name()'])

prop('C03', 'Concurrent callers get the results they would get alone',
     'When several threads use the library at once on one selected network, '
     'under any interleaving of their steps, every call returns or raises '
     'exactly what it would if its thread were alone, including calls that '
     'share built objects or read the same arguments.',
     ['schedules', 'inputs'],
     'every interleaving, down to single bytecodes, of any set of concurrent '
     'public calls on every network',
     'The tests are single threaded. A shared scratch buffer or a '
     'check-then-use of shared state needs a preemption between two '
     'particular instructions.',
     ['__init__.py', 'utils.py', 'blake256.py', 'encoding/base58.py',
      'encoding/bech32.py', 'encoding/cashaddr.py', 'encoding/addresses.py',
      'script/serialization.py', 'tx/tx_builder.py', 'simple.py'] + TXF,
     [('no shared mutable state besides the selected network', 'whole package'),
      ('per-instance hash state', 'riemann/blake256.py BLAKE.__init__')],
     [('network', 'the selected network class', 'riemann/__init__.py')],
     ['return value or exception class of every call in every thread'])

prop('C04', 'An interrupted call leaves no trace',
     'When a call is interrupted at any point inside the library (by an '
     'asynchronous exception such as a keyboard interrupt, a timeout or a '
     'cancellation), the interruption reaches the caller and nothing of the '
     'abandoned call remains. The arguments, all existing objects (other than '
     'a streaming hasher that was being fed) and the selected network are '
     'unchanged, and every later call, including a retry of the interrupted '
     'one, gives the result it would have given had the interrupted call '
     'never been made.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every instruction boundary inside every public call as interruption '
     'point, any number of interruptions in a session, every network',
     'No test interrupts anything. A temporary change that is undone at the '
     'end of a call, or a half-filled cache, is visible only if the '
     'interruption lands between the two.',
     ['__init__.py', 'utils.py', 'blake256.py', 'encoding/addresses.py',
      'script/serialization.py', 'tx/tx_builder.py', 'simple.py'] + TXF,
     [('calls build fresh values and publish them only by returning', 'whole package'),
      ('objects are complete before they are returned', 'riemann/tx/*.py constructors')],
     [('network', 'the selected network class', 'riemann/__init__.py')],
     ['arguments and live objects after the interruption',
      'results of later calls'])

prop('C05', 'A resource failure never turns into a wrong answer',
     'When an allocation or the underlying hash implementation fails during a '
     'call, the call either still returns its correct result or raises that '
     'failure (possibly as the cause of another error); it never returns a '
     'different value and never reports the failure as a verdict about its '
     'input, such as "bad checksum", "not an address" or "not standard". '
     'After the failure is over, repeating the call gives the correct result.',
     ['fault_sequences', 'inputs'],
     'every call, every point inside it at which memory or the hash backend '
     'can fail, any number of failures per session, every network',
     'No test makes anything fail. Broad exception handlers turn a transient '
     'failure into a plausible negative answer only when the failure lands '
     'inside the guarded region.',
     ['utils.py', 'encoding/base58.py', 'encoding/addresses.py',
      'networks/standard.py', 'script/serialization.py', 'tx/tx.py',
      'tx/shared.py', 'tx/decred.py', 'blake256.py'],
     [('exception handlers limited to input errors', 'riemann/encoding/addresses.py parse, riemann/encoding/base58.py, riemann/networks/standard.py, riemann/tx/tx.py TxIn._parse_script_sig')],
     [], ['return value, or exception and its cause chain'])

prop('C06', 'Stored transactions survive crash and restart intact',
     'A transaction or transaction part that was serialized to storage, or '
     'sent to another process, decodes there, with the same network '
     'selected, to an equal object: same bytes, same fields and vector '
     'lengths, same ids, same fee and same signing digests. This holds for '
     'every transaction the library can build within its documented limits, '
     'on every network, wherever the writing or reading process crashes and '
     'restarts.',
     ['crash_points', 'histories', 'inputs', 'configurations'],
     'every buildable transaction of every family (legacy, segwit, Sprout, '
     'Overwinter, Sapling, and the decodable Decred parts), every network, '
     'every crash point of writer and reader',
     'The tests decode a few recorded transactions with one to three inputs '
     'and outputs, in the process that encoded them; size-class boundaries '
     '(252/253, 255/256, 65535/65536), empty vectors and optional parts '
     'are not reached.',
     TXF + ['script/serialization.py'],
     [('constructors serialize eagerly', 'riemann/tx/*.py __init__'),
      ('from_bytes/from_hex parse by the same layout', 'riemann/tx/*.py from_bytes'),
      ('length prefixes', 'riemann/tx/shared.py VarInt')],
     [], ['to_bytes(), fields, tx_id, wtx_id, calculate_fee, sighash_*'])

prop('C07', 'Data cut short is refused, at every cut point',
     'If the bytes of a transaction or transaction part are cut short at any '
     'offset (connection closed, torn write, short read), decoding raises an '
     'error and never yields an object. The only exceptions are cut points '
     'at which the remaining bytes are themselves a complete encoding of the '
     "transaction's unsigned form.",
     ['crash_points', 'fault_sequences', 'inputs'],
     'every encodable object of every class and every proper prefix of its '
     'encoding, on every network',
     'The tests feed complete encodings. There is one cut point per byte and '
     'a missing length check matters only for cuts inside particular fields.',
     TXF,
     [('fixed-length fields are validated', 'riemann/tx/shared.py ByteData.validate_bytes'),
      ('variable-length fields are compared with the input', 'riemann/tx/shared.py ByteData._check_parsed_from, VarInt.from_bytes')],
     [], ['from_bytes/from_hex raises'])

prop('C08', 'A damaged or misrouted address never pays someone else',
     'An address delivered intact to a node on its own network always '
     'resolves to the output script and hash it was made for. An address '
     'that was damaged on the way (substituted, dropped, duplicated, '
     'swapped, inserted or case-changed characters, truncation, splicing) or '
     'delivered to a node of another network is either refused or resolves '
     'to exactly what an independent decoder of that network\'s address rules '
     'says it means; it never resolves to any other destination.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every address kind (base58, bech32, cashaddr; key hash and script '
     'hash, witness or not), every pair of sending and receiving networks, '
     'every sequence of transmission faults',
     'The tests decode a few recorded good addresses and a few bad ones on '
     'one network each; the error-detection and network-separation guarantee '
     'is over all damages and all network pairs.',
     ['encoding/addresses.py', 'encoding/base58.py', 'encoding/bech32.py',
      'encoding/cashaddr.py', 'networks/networks.py', 'utils.py'],
     [('checksums', 'riemann/encoding/base58.py decode, bech32.py bech32_verify_checksum, cashaddr.py verify_checksum'),
      ('network prefixes', 'riemann/networks/networks.py; riemann/encoding/addresses.py to_output_script, parse_hash')],
     [], ['to_output_script, parse, parse_hash, from_output_script'])

prop('C09', 'Corrupted wire bytes are decoded faithfully or refused',
     'Whatever bytes arrive, decoding either raises or returns an object '
     'whose encoding is exactly a prefix of those bytes, and whose fields, '
     'vectors and ids are exactly what the wire format assigns to that '
     'prefix. No corruption (flipped, overwritten, inserted, dropped, '
     'reordered or repeated pieces, damaged lengths and counts, non-minimal '
     'numbers and pushes, trailing data) makes the library report contents '
     'that were not on the wire, and decoding always terminates.',
     ['fault_sequences', 'inputs'],
     'every byte string reachable from an encoding by any sequence of '
     'transmission faults, for every decodable class on every network',
     'The tests decode well-formed recorded data and a few malformed '
     'constants.',
     TXF + ['script/serialization.py'],
     [('decoded object is compared with its input', 'riemann/tx/shared.py ByteData._check_parsed_from'),
      ('script sigs that do not re-serialize are kept whole', 'riemann/tx/tx.py TxIn._parse_script_sig'),
      ('number prefixes keep their form', 'riemann/tx/shared.py VarInt.from_bytes')],
     [], ['from_bytes/from_hex result: to_bytes(), fields, ids'])

prop('C10', 'Co-signers compute the same, correct signing digests',
     'Parties that pass a transaction among themselves over an unreliable '
     'network, crashing, restarting from stored bytes and adding '
     'signatures, outputs or inputs on the way, compute for every input '
     'exactly the digest that the network\'s signature-hash rules define for '
     'the chosen type (ALL or SINGLE, with or without ANYONECANPAY), or the '
     'library refuses. A digest therefore stays the same under every change '
     'the chosen type leaves open and changes under every change it commits '
     'to; undefined cases (SINGLE without a matching output) are refused.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'every signing session: any number of parties and inputs, every '
     'message loss, duplication, reordering and crash, every digest type, '
     'every family (legacy, BIP143, fork id, Sprout, ZIP143, ZIP243, Decred)',
     'The tests compare recorded digests of a few small transactions, mostly '
     'at index 0 and mostly without ANYONECANPAY; several documented '
     'combinations were wrong and untested.',
     ['tx/tx.py', 'tx/decred.py', 'tx/sprout.py', 'tx/overwinter.py',
      'tx/sapling.py', 'utils.py', 'blake256.py'],
     [('sighash_all/sighash_single and their helpers', 'riemann/tx/tx.py, decred.py, sprout.py, overwinter.py, sapling.py')],
     [], ['sighash_all, sighash_single, segwit_sighash, sighash'])

prop('C11', 'Streaming BLAKE hashing depends only on the bytes fed',
     'A BLAKE digest (224, 256, 384 or 512 bits) depends only on the '
     'concatenation of the data fed to that hasher before its first digest '
     'call and on its salt: any way of cutting the stream into chunks (empty '
     'chunks, text or bytes, chunks passed to the first digest call), any '
     'interleaving with other hashers, any interrupted or failed use of other '
     'hashers, and any number of repeated digest calls give the digest the '
     'BLAKE specification defines.',
     ['schedules', 'histories', 'inputs'],
     'every stream, every chunking, every interleaving of several hashers, '
     'every digest size, with and without salt',
     'The tests hash one- and two-block messages in a single call; buffering '
     'and counter errors depend on chunk boundaries relative to the block.',
     ['blake256.py', 'utils.py'],
     [('block cache, bit counter, padding', 'riemann/blake256.py BLAKE.update, final, _compress, addsalt')],
     [('cache, t, nullt, h, salt, state', 'streaming state of one hasher', 'riemann/blake256.py BLAKE')],
     ['final/digest/hexdigest, blake_hash, utils.blake256'])

prop('C12', 'Edits replace exactly the fields they name',
     'A copy with changes differs from the original in exactly the named '
     'fields and in what is derived from them (encoding, ids), a copy '
     'without changes is equal to the original, and the original is '
     'untouched. So replicas that apply the same non-conflicting edits, in '
     'any order, with duplicates, over a lossy network and across crashes '
     'and restarts, end with the same transaction, the one a plain record of '
     'fields gives.',
     ['histories', 'schedules', 'fault_sequences', 'crash_points'],
     'every history of edits to every class with a copy operation, every '
     'delivery order and every crash point',
     'The tests call copy() a few times with one changed field; a field that '
     'is dropped, swapped or shared shows only for particular field/value '
     'combinations (empty, zero, None) and chains of edits.',
     TXF,
     [('copy() on every class', 'riemann/tx/*.py copy')],
     [], ['copy(), fields, to_bytes(), tx_id'])

prop('C13', 'Chains are never mixed up across network switches',
     'In a session that serves several chains by switching the selected '
     'network, a chain-specific transaction (Decred, Zcash Sprout, '
     'Overwinter, Sapling) is built, decoded or copied only while a network '
     'of its own chain is selected; under any other it is refused, also when '
     'its parts or bytes were made earlier under the right one. Bytes of one '
     'Zcash transaction format are refused by the decoders of the others, '
     'and the builder functions return the class that belongs to the '
     'selected network.',
     ['histories', 'configurations', 'fault_sequences'],
     'every history of network switches and every class, part and encoding '
     'carried across a switch or delivered to the wrong chain',
     'The tests check a few constructors under one wrong network, never '
     'with parts carried over from the right one.',
     ['tx/decred.py', 'tx/zcash_shared.py', 'tx/sprout.py',
      'tx/overwinter.py', 'tx/sapling.py', 'tx/tx_builder.py', 'simple.py',
      '__init__.py'],
     [('network guard in base classes', 'riemann/tx/decred.py DecredByteData, riemann/tx/zcash_shared.py ZcashByteData'),
      ('network guard per format', 'riemann/tx/sprout.py, overwinter.py, sapling.py __init__'),
      ('header checks', 'riemann/tx/overwinter.py, sapling.py from_bytes'),
      ('dispatch', 'riemann/tx/tx_builder.py make_tx, make_outpoint, make_legacy_input, _make_output')],
     [('network', 'the selected network class', 'riemann/__init__.py')],
     ['constructors, from_bytes, copy, make_tx, simple.*'])

prop('C14', 'Wallets and nodes built on the library keep one ledger',
     'Wallets that build payments with the library from addresses they '
     'received and nodes that decode and apply them, over a network that '
     'loses, duplicates, reorders and delays messages and with crashes and '
     'restarts, converge to one ledger once faults stop: every node computes '
     'the same transaction ids, every spend finds the output it refers to, '
     'each payment is credited exactly once, with its exact value, to the '
     'holder of the address, and value is conserved (fee = inputs - '
     'outputs).',
     ['histories', 'fault_sequences', 'schedules', 'configurations'],
     'every payment history, every network with its address kinds, every '
     'fault schedule',
     'The tests check builders, addresses and ids separately against '
     'recorded constants; whether they fit together (payee recognises what '
     'payer built) is a property of whole histories.',
     ['simple.py', 'tx/tx_builder.py', 'encoding/addresses.py',
      'encoding/base58.py', 'encoding/bech32.py', 'encoding/cashaddr.py',
      'script/serialization.py', 'tx/tx.py', 'tx/decred.py', 'tx/sprout.py',
      'tx/overwinter.py', 'tx/sapling.py', 'utils.py',
      'networks/networks.py'],
     [('address to output script', 'riemann/encoding/addresses.py, riemann/simple.py output'),
      ('transaction id', 'riemann/tx/*.py tx_id'),
      ('builders', 'riemann/tx/tx_builder.py, riemann/simple.py')],
     [], ['ledger state of every simulated node'])

prop('C15', 'Scripts travel between text and bytes unaltered, or are refused',
     'A script that is passed between parties as text, hex or bytes keeps its '
     'operations. serialize turns each opcode name of the selected network '
     '(Decred has its own OP_BLAKE256 and OP_SHA256) into its byte and each '
     'hexadecimal token, in either case and separated by any white space, '
     'into the shortest push (direct to 75 bytes, PUSHDATA1 to 255, PUSHDATA2 '
     'beyond); deserialize gives the canonical text of the same operations, '
     'also for pushes encoded longer than necessary, with empty pushes as '
     'OP_0. The hex variants agree. What is cut inside an operation or names '
     'an operation that is unknown on the network or unsupported '
     '(OP_CODESEPARATOR, OP_PUSHDATA4) raises and is never skipped, '
     'shortened or altered. This does not depend on earlier or interrupted '
     'calls, or on what holders do to returned buffers. Pushes over 1000 '
     'bytes in text, and the names of bare push opcodes (OP_PUSH_n, '
     'OP_PUSHDATA1, OP_PUSHDATA2), are open.',
     ['inputs', 'fault_sequences', 'histories', 'configurations'],
     'every script and every damage to its text or bytes, every network, '
     'every order of conversions',
     'Tests convert a few scripts, forth or back; a wrong boundary, opcode '
     'number or a cut that is taken for a shorter script shows on others '
     'only.',
     ['script/serialization.py', 'script/opcodes.py',
      'networks/networks.py'],
     [('serialize/deserialize', 'riemann/script/serialization.py'),
      ('opcode table', 'riemann/script/opcodes.py'),
      ('opcode changes of a network',
       'riemann/networks/networks.py *_OVERWRITE')],
     [('network', 'the selected network class', 'riemann/__init__.py')],
     ['serialize, deserialize, hex_serialize, hex_deserialize'])
prop('C16', 'Addresses and output scripts correspond one to one',
     'On every network, a standard output script (P2PKH, P2SH and, where '
     'there is segwit, P2WPKH and P2WSH) gets exactly its address, in cash '
     'form where the network has it unless cashaddr=False is passed, and '
     'that address gives back exactly that script and its hash; over any '
     'number of hops, and whatever calls came before. Every other script - '
     'damaged in any byte, cut, extended, of another template, or a witness '
     'script where there is no segwit - gets no address (from_output_script '
     'raises). No two scripts of a network share an address. Addresses made '
     'from a public key or a redeem script are those of the output scripts '
     'the builders make from them.',
     ['inputs', 'fault_sequences', 'histories', 'configurations'],
     'every output script and damage to it, every network and address form',
     'Tests convert a few recorded pairs on two networks; that no other '
     'script gets the address is a statement about all scripts.',
     ['encoding/addresses.py', 'encoding/base58.py', 'encoding/bech32.py',
      'encoding/cashaddr.py', 'networks/networks.py', 'tx/tx_builder.py'],
     [('from_output_script/to_output_script',
       'riemann/encoding/addresses.py'),
      ('make_*_address', 'riemann/encoding/addresses.py'),
      ('make_*_output_script', 'riemann/tx/tx_builder.py')],
     [('network', 'the selected network class', 'riemann/__init__.py')],
     ['from_output_script, to_output_script, parse_hash, make_*_address'])
prop('C17', 'Digests parties exchange are those of the specification',
     'sha256, rmd160, hash160, hash256, blake256, blake2b and blake2s return, '
     'for every byte string, as bytes, the digest their specification '
     'defines: hash160 is RIPEMD-160 of SHA-256 and hash256 double SHA-256, '
     'on the Decred networks RIPEMD-160 of BLAKE-256 and double BLAKE-256, '
     'by the network selected at the time of the call; blake2b and blake2s '
     'pass key, salt, person, digest size and tree parameters on, and hash '
     'nothing when given no data. Two parties agree exactly when they hashed '
     'the same bytes. The digest does not depend on earlier calls, on calls '
     'of other threads at the same time, on networks used before, on what '
     'happens to the buffer of an argument afterwards, or on calls that were '
     'interrupted or whose hash backend failed: a call whose backend fails '
     'raises or is right.',
     ['inputs', 'schedules', 'histories', 'fault_sequences',
      'configurations'],
     'every byte string, every interleaving and history of calls',
     'Tests use recorded vectors, one thread and one network at a time.',
     ['utils.py', 'blake256.py'],
     [('hash helpers', 'riemann/utils.py'),
      ('BLAKE', 'riemann/blake256.py')],
     [('network', 'the selected network', 'riemann/__init__.py')],
     ['hash helpers'])
prop('C18', 'Damaged requests are refused or built exactly, never half',
     'A request to build a transaction, a part of one or a number either '
     'describes a well-formed object of the selected network, and then '
     'exactly that is built (its bytes are the encoding of the arguments as '
     'given), or it raises. Refused are: byte fields of the wrong length '
     '(fixed-width fields of every part, 4-byte versions, lock times, '
     'sequences, indexes and expiries, 8-byte values, 32- and 64-byte keys '
     'and signatures) or of another type; lists with something that is not '
     'the part required, parts of another chain or format included; missing '
     'inputs or outputs where the format needs them; a witness list without '
     'flag or of another length than the inputs; a wrong flag; '
     'transactions over 100,000 bytes on Decred and Zcash, script_sigs over '
     '1650 bytes, more than 5 joinsplits, expiries over 499,999,999, a '
     'value on both sides of a joinsplit, a value balance without shielded '
     'parts, Sprout versions other than 1 and 2; numbers that do not fit '
     'their field. A refused or interrupted request does not affect later '
     'ones.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every request and every damage to its fields',
     'Tests try one bad value for most fields; combinations, other lengths, '
     'look-alike parts of other chains and positions in lists are not '
     'tried.',
     TXF + ['utils.py', 'tx/tx_builder.py', 'simple.py'],
     [('validate_bytes and explicit checks', 'riemann/tx/*.py __init__'),
      ('integer helpers', 'riemann/utils.py'),
      ('VarInt', 'riemann/tx/shared.py')],
     [], ['constructors, tx_builder, simple, utils'])
prop('C19', 'Standardness verdicts are those of the policy, on every node',
     'check_is_standard_tx accepts exactly the transactions the relay policy '
     'it documents accepts: version 1 or 2 (all four bytes); weight at most '
     '400,000; every script_sig at most 1650 bytes and, read as a script of '
     'the selected network, push-only; every output is P2PKH, P2SH, P2WPKH '
     'or P2WSH (where the network has segwit), P2PK with a key of 33 or 65 '
     'bytes, bare m-of-n multisig of such keys with m <= n <= 3, or carries '
     'data; of these there is at most one: value zero, OP_RETURN followed by '
     'pushes only, at most 80 bytes in all; other outputs hold at least 550 '
     'unless they are P2WPKH. check_is_standard, is_op_return, '
     'is_standard_output_type, is_push_only and check_tx_size_small (at '
     'least 82 bytes without witnesses) answer for their part. A script '
     'that cannot be read makes the answer False, it never raises '
     '(is_push_only itself may). The '
     'verdict depends on the transaction and the network only: built, '
     'decoded or after an interrupted call, it is the same, and asking does '
     'not change the transaction. So nodes that relay what is standard '
     'bring every standard transaction to every node once messages stop '
     'getting lost, and no other. (Open: OP_RESERVED and OP_1NEGATE in '
     'script_sigs, carriers of 81 to 83 bytes, keys with an odd first byte, '
     'keys pushed in a longer form than needed.)',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every transaction, every damage to it, every network',
     'There are no tests for the policy; and hostile scripts and limits are '
     'a large space.', ['networks/standard.py', 'script/serialization.py'],
     [('check_is_standard_tx and helpers', 'riemann/networks/standard.py')],
     [], ['check_is_standard_tx, check_is_standard, is_op_return'])
prop('C20', 'Time-locked transactions are final when the lock passed, not before',
     'check_final reports a transaction as final exactly when its lock time '
     'is at most the height given (lock times below 500,000,000) or at most '
     'the timestamp given (from 500,000,000 on); both default to 0. The '
     'answer depends on nothing else: not on earlier questions with other '
     'heights or times (reorganized chains, clocks set back or jumping '
     'ahead), not on sequence numbers, network, or whether the object was '
     'built, decoded or copied. So a node that releases final transactions '
     'never releases one early, and once clocks and chain are right it '
     'releases every transaction whose lock has passed.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every lock time, and every history of heights and clocks',
     'There are no tests for it; and it is a statement about sequences of '
     'questions with clocks that go back.',
     ['networks/standard.py', 'utils.py'],
     [('check_final', 'riemann/networks/standard.py')],
     [], ['check_final'])
prop('C21', 'Network parameters are those of the real chains',
     'Every supported network has the prefixes, encodings, fork id and '
     'opcode changes of the chain it names.', ['configurations'],
     '72 networks', 'Tests look up two networks.', ['networks/networks.py'],
     [('network table', 'riemann/networks/networks.py')])
prop('C22', 'Numbers arrive as they were sent, in every encoding',
     'A number written by one party and read by another is the same number, '
     'or it is refused. i2le and i2be write the shortest unsigned form (zero '
     'as one zero byte), the padded forms exactly the length asked for, and '
     'negative numbers or numbers that do not fit raise; i2le_script writes '
     "the shortest two's complement form of at most 520 bytes (zero as 00); "
     'le2i and be2i read every byte string, signed or not, to its value; '
     'change_endianness reverses. VarInt writes 0 to 2^64-1 as Bitcoin does, '
     'in the shortest form or in the longer one of 3, 5 or 9 bytes asked '
     'for, and raises for other numbers; VarInt.from_bytes reads the number '
     'at the front of what has arrived whatever follows it, raises when it '
     'is not complete, keeps the form it was sent in (in the object and its '
     'copies), and on Overwinter and Sapling networks, as selected at the '
     'time of the call, refuses forms longer than needed. So numbers sent '
     'through a stream that is cut anywhere, damaged, lost and resumed are '
     'read once each, in order. Refused or interrupted calls do not affect '
     'later ones.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every number, encoding, fragmentation and damage of a stream',
     'Tests use a few values of each width and whole strings.',
     ['utils.py', 'tx/shared.py'],
     [('i2le, i2le_padded, i2be, i2be_padded, i2le_script, le2i, be2i',
       'riemann/utils.py'), ('VarInt', 'riemann/tx/shared.py')],
     [('network', 'the selected network', 'riemann/__init__.py')],
     ['integer helpers, VarInt'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                       'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
