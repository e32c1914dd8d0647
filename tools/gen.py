#!/opt/veriftools/pyvenv/bin/python
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below and specs/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/specs'); sys.path.insert(0, V + '/cppvc')
T = []
def P(id, title, statement, over, qtext, why, files, mech, **kw):
    T.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': dict({'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, **kw)})
P('C01', 'RLP encoding is canonical and unambiguous',
  'Encoding any tree of byte strings, unsigned integers and lists yields exactly the canonical RLP byte string of that tree: minimal length headers, integers without leading zero bytes, single bytes below 0x80 as themselves, and lists closed exactly when the announced number of items was appended. Decoding that output gives the tree back.',
  ['inputs'], 'every item tree, every string length, every integer below 2^256, every nesting',
  'Every block, transaction and hash depends on it; tests hold a JSON list of a few encodings and cannot reach all lengths and nestings.',
  ['libdevcore/RLP.h', 'libdevcore/RLP.cpp'], [('RLPStream::append / noteAppended / pushCount', 'libdevcore/RLP.cpp'), ('toBigEndian, bytesRequired', 'libdevcore/CommonData.h')], observe_at=['RLPStream::out()', 'rlp(), rlpList()'])
P('C02', 'RLP decoding is strict and memory safe on every input',
  'For every byte string, strict decoding accepts exactly the canonical encodings that fill the input and otherwise throws a decoding error; integer and hash conversions accept exactly the canonical payloads that fit the target and return their big-endian value. No decoding or list iteration ever reads outside the input or fails to terminate, in any strictness mode.',
  ['inputs'], 'every byte string shorter than 2^40 bytes, every strictness flag combination used',
  'Input comes from the network and from RPC; the tests decode a fixed list of samples, while malformed headers form an unbounded space.',
  ['libdevcore/RLP.h', 'libdevcore/RLP.cpp', 'libdevcore/vector_ref.h'], [('RLP::length / payload / requireGood / actualSize', 'libdevcore/RLP.cpp'), ('RLP::toInt / toHash', 'libdevcore/RLP.h'), ('RLP::iterator', 'libdevcore/RLP.cpp')], observe_at=['RLP constructor, begin()/end(), toInt, toHash, toBytes'])
P('C03', 'Hex, big-endian, compact and JSON-RPC number conversions are exact',
  'Converting bytes to hexadecimal and back, and integers to big-endian (fixed or minimal width) and back, is lossless for every value; text that is not valid hexadecimal is rejected, or yields the empty result in the non-throwing mode, instead of being decoded to something else. JSON-RPC quantities (0x-prefixed, or decimal without leading zeros) that fit the target are parsed to exactly the number written and printed without leading zeros.',
  ['inputs'], 'every byte string, every text, every 256-bit integer',
  'Tests check a handful of literals; the statement is over all strings and all integers.',
  ['libdevcore/CommonData.h', 'libdevcore/CommonData.cpp', 'libethcore/CommonJS.h', 'libethcore/CommonJS.cpp'], [('toHex / fromHex / fromHexChar', 'libdevcore/CommonData.*'), ('toBigEndian / fromBigEndian / toCompactBigEndian', 'libdevcore/CommonData.h'), ('jsToBytes / jsToInt / jsToU256 / toJS', 'libdevcore/CommonJS.*')])
P('C04', 'Fixed-size hashes behave as fixed-width big-endian integers',
  'Comparison and ordering of fixed-size hashes, their bitwise operators, increment, conversion to and from integers, and left, right and exact construction from byte strings all agree with the fixed-width big-endian integer (or byte vector) the hash stands for. Adding a value to a bloom hash never removes a bit, and every value added is afterwards reported as contained.',
  ['inputs'], 'every hash value of 4, 8, 20, 32 and 256 bytes and every source string length',
  'Tests sample a few constants; ordering and bit errors affect single byte positions only.',
  ['libdevcore/FixedHash.h', 'libdevcore/FixedHash.cpp'], [('FixedHash operators', 'libdevcore/FixedHash.h'), ('shiftBloom / bloomPart / containsBloom', 'libdevcore/FixedHash.h')])
P('C05', 'Log filters return exactly the matching logs',
  'A log entry is returned for a filter exactly when the address is one of the filter addresses (or none is given) and for every topic position with alternatives the entry has a topic there that is one of them. The bloom pre-check never rejects a block or receipt that contains a matching entry.',
  ['inputs'], 'every filter (addresses, four topic positions) and every list of log entries',
  'The existing suite that exercises filters needs a full client and samples few filters.',
  ['libethereum/LogFilter.h', 'libethereum/LogFilter.cpp'], [('LogFilter::matches / isRangeFilter / bloomPossibilities', 'libethereum/LogFilter.cpp')])
P('C06', 'Range masks denote exactly the set built by their operations',
  'After any sequence of unions, complements, differences, and single-element additions, a range mask contains exactly the elements that the same operations on plain sets give, within its ground range. Size, emptiness, fullness, iteration, the lowest-n subset and the next-element query agree with that set.',
  ['histories', 'inputs'], 'every sequence of operations on masks over ranges of unsigned numbers',
  'Tests run about ten fixed sequences; overlapping and touching ranges combine in unboundedly many ways.',
  ['libdevcore/RangeMask.h'], [('RangeMask::unionWith / inverted / next / lowest / contains', 'libdevcore/RangeMask.h')])
P('C07', 'Trie path (hex-prefix) encoding is lossless',
  'Encoding any nibble path with its leaf flag to the compact hex-prefix form and decoding it again gives the same nibbles and the same flag, and different (path, flag) pairs have different encodings. Nibble views shared, cut and compared agree with the underlying nibble sequences.',
  ['inputs'], 'every nibble sequence, offset and flag',
  'The suite has no unit test of the nibble code in this build; parity and offset cases multiply.',
  ['libdevcore/TrieCommon.h', 'libdevcore/TrieCommon.cpp'], [('hexPrefixEncode / NibbleSlice / keyOf / isLeaf', 'libdevcore/TrieCommon.*')])
P('C08', 'State rollback restores every account exactly',
  'Reverting to a savepoint undoes every balance, nonce, storage, code, account creation and touch change made since, including the accounting of storage used, and undoes nothing made before it. Changes and reverts nest arbitrarily.',
  ['histories'], 'every sequence of state changes, savepoints and rollbacks',
  'Tests revert a few hand-written sequences and need the full node.',
  ['libskale/State.h', 'libskale/State.cpp', 'libethereum/Account.h'], [('State::rollback / m_changeLog', 'libskale/State.cpp')])
P('C09', 'Value transfers conserve total balance',
  'Moving value between accounts never changes the sum of balances, and a debit larger than the balance is refused without any change.',
  ['inputs', 'histories'], 'every pair of accounts, amount and prior state',
  'Tests transfer a few amounts; overflow, self-transfer and insufficient funds are edge cases of a 256-bit space.',
  ['libskale/State.cpp', 'libskale/State.h'], [('State::transferBalance / addBalance / subBalance', 'libskale/State.*')])
P('C10', 'The state overlay database reads back what was written',
  'Through the overlay, a lookup of a key, auxiliary value, code, account or storage slot returns the last value inserted and not killed, whether it is still cached, committed or only in the backing database. A rollback forgets exactly the uncommitted changes.',
  ['histories'], 'every sequence of insert, kill, commit and rollback on every key',
  'Tests follow a few sequences on few keys.',
  ['libskale/OverlayDB.h', 'libskale/OverlayDB.cpp'], [('OverlayDB::lookup / insert / kill / commit', 'libskale/OverlayDB.cpp')])
P('C11', 'Databases sharing one store never see each other\'s data',
  'Several logical databases multiplexed onto one physical store by a prefix each behave as a separate key-value store: reads, writes, deletes, batches and full iterations of one never return or alter entries of another.',
  ['histories', 'inputs'], 'every set of prefixes, keys and operation sequences',
  'Tests use short distinct keys; collisions need particular prefixes and keys.',
  ['libdevcore/SplitDB.cpp', 'libdevcore/SplitDB.h', 'libbatched-io/batched_db.h', 'libbatched-io/batched_db.cpp'], [('SplitDB::PrefixedDB', 'libdevcore/SplitDB.cpp'), ('db_splitter::prefixed_db', 'libbatched-io/batched_db.cpp')])
P('C12', 'Batched writes become visible together and in order',
  'Writes and deletes issued through a batching database are applied to the underlying database in the order issued, all of them at the commit point in one batch and none before it; a revert discards exactly the pending ones, and nothing is applied twice.',
  ['histories', 'crash_points'], 'every interleaving of inserts, kills, commits and reverts, and a crash between any two steps',
  'Tests commit a few short batches; ordering and crash points cannot be sampled.',
  ['libbatched-io/batched_db.h', 'libbatched-io/batched_db.cpp', 'libbatched-io/batched_io.h'], [('batched_db', 'libbatched-io/batched_db.*')])
P('C13', 'A rotating database keeps exactly its newest pieces',
  'A database split into a fixed number of rotating pieces answers lookups with the newest stored value of a key among the pieces kept, writes only to the newest piece, and a rotation discards exactly the oldest piece.',
  ['histories', 'crash_points'], 'every number of pieces and every sequence of inserts, kills and rotations',
  'Tests rotate a few times with few pieces.',
  ['libdevcore/ManuallyRotatingLevelDB.cpp', 'libbatched-io/batched_rotating_history_db_io.cpp', 'libbatched-io/rotating_db_io.cpp'], [('ManuallyRotatingLevelDB::lookup / rotate', 'libdevcore/ManuallyRotatingLevelDB.cpp')])
P('C14', 'Transaction decoding accepts only well-formed transactions',
  'Every field of a decoded transaction equals the field encoded in its bytes, transactions with a wrong field count, type, chain id or fee relation are rejected, and re-encoding an accepted transaction gives the same bytes.',
  ['inputs'], 'every byte string offered as a transaction of any of the three types',
  'Tests decode a few samples per type.',
  ['libethcore/TransactionBase.cpp', 'libethcore/TransactionBase.h'], [('TransactionBase::fillFromBytes*', 'libethcore/TransactionBase.cpp')])
P('C15', 'A transaction runs only if its sender can pay for it',
  'A transaction is executed only when its nonce is the next one, its gas limit fits and covers the intrinsic cost, and the sender can pay gas limit times gas price plus value computed without overflow. After execution the sender is charged exactly the gas used times the price, the unused gas is returned, and refunds never exceed the allowed share.',
  ['inputs', 'programs'], 'every transaction and account state, all 256-bit amounts',
  'Tests use ordinary amounts; wrap-around needs extreme gas prices.',
  ['libethereum/Executive.cpp', 'libethereum/Executive.h'], [('Executive::verifyTransaction / initialize / finalize', 'libethereum/Executive.cpp')])
P('C16', 'The transaction queue hands out each sender\'s transactions in nonce order',
  'Transactions taken from the queue are distinct, per sender in increasing nonce order without gaps, at most one per sender and nonce is kept, and a replacement is accepted only at a higher price. Total counts and sizes stay within the configured limits.',
  ['histories'], 'every sequence of imports, drops and reads',
  'Tests run a few scripted sequences.',
  ['libethereum/TransactionQueue.cpp', 'libethereum/TransactionQueue.h'], [('TransactionQueue::import / insertCurrent_WITH_LOCK / makeCurrent_WITH_LOCK', 'libethereum/TransactionQueue.cpp')])
P('C17', 'Protocol patches and forks switch on exactly at their time',
  'A protocol patch is active for a block exactly when its configured timestamp is non-zero and the committed block\'s timestamp has reached it, patches never influence each other, and every patch name maps to its own patch and back. The rule set and block reward chosen for a block number and timestamp are those of the latest fork whose block number has been reached, changed only by active patches.',
  ['inputs', 'configurations'], 'every configuration of timestamps and fork blocks, every block number and timestamp',
  'Nodes fork if they disagree on one boundary; tests check few patches and times.',
  ['libethereum/SchainPatch.h', 'libethereum/SchainPatch.cpp', 'libethereum/SchainPatchEnum.h', 'libethcore/ChainOperationParams.h', 'libethcore/ChainOperationParams.cpp'], [('SchainPatch::isPatchEnabledWhen / isPatchEnabledInWorkingBlock', 'libethereum/SchainPatch.*'), ('ChainOperationParams::makeEvmSchedule / getPatchTimestamp / blockReward', 'libethcore/ChainOperationParams.*')])
P('C18', 'Node rotation happens exactly when scheduled',
  'After a rotation time has been scheduled, the monitor reports that it is time to rotate exactly for block timestamps at or after it; without a schedule, or with an unreadable one, it never does. Preparing the rotation reports the exit condition and removes the schedule.',
  ['histories', 'inputs', 'fault_sequences'], 'every schedule time, block timestamp and rotation file content',
  'Tests use three timestamps and one malformed file.',
  ['libethereum/InstanceMonitor.cpp', 'libethereum/InstanceMonitor.h'], [('InstanceMonitor::isTimeToRotate / rotationTimestamp / initRotationParams', 'libethereum/InstanceMonitor.cpp')])
P('C19', 'Receipts and block details survive storage',
  'Encoding a transaction receipt, or the details, blooms, receipts, logs or location records kept for a block, and decoding the stored bytes gives back equal content, and a receipt with a status code stays distinguishable from one with a state root.',
  ['inputs'], 'every receipt and block record content',
  'The historical database depends on it; tests do not round-trip random contents.',
  ['libethereum/TransactionReceipt.cpp', 'libethereum/TransactionReceipt.h', 'libethereum/BlockDetails.cpp', 'libethereum/BlockDetails.h', 'libethcore/LogEntry.h'], [('TransactionReceipt(RLP) / streamRLP', 'libethereum/TransactionReceipt.cpp'), ('BlockDetails / BlockLogBlooms / BlockReceipts / TransactionAddress', 'libethereum/BlockDetails.*')])
P('C20', 'Base64 coding is lossless and total',
  'Decoding the base-64 encoding of any byte string gives it back, and the encoding is the standard padded one. Decoding arbitrary text never reads or writes out of bounds.',
  ['inputs'], 'every byte string and every text',
  'Tests use a few literals.',
  ['libdevcore/Base64.h', 'libdevcore/Base64.cpp'], [('toBase64 / fromBase64', 'libdevcore/Base64.cpp')])
P('C21', 'EVM instructions compute modular 256-bit arithmetic and charge their gas',
  'Each arithmetic, comparison, bit and shift instruction yields the result defined for 256-bit words including its zero-divisor and signed edge cases; every other instruction (environment, memory, storage, logs, jumps, calls, creations) has its defined effect and price; execution never continues past the available gas, the stack limits are enforced, and jumps land only on valid destinations.',
  ['programs', 'inputs'], 'every instruction and operand, every bytecode',
  'Reference tests sample operands; the operand space is 2^512.',
  ['libevm/LegacyVM.cpp', 'libevm/LegacyVMOpt.cpp', 'libevm/LegacyVMCalls.cpp'], [('VM::interpretCases', 'libevm/LegacyVM.cpp')])
P('C22', 'Precompiled contracts are charged and restricted as configured',
  'A precompiled contract runs only from its starting block and only for allowed callers, and its price and result follow its definition for every input.',
  ['inputs', 'configurations'], 'every input, caller and configuration', 'Tests use sample inputs.',
  ['libethcore/ChainOperationParams.h', 'libethereum/Precompiled.cpp'], [('PrecompiledContract::cost / startingBlock / executionAllowedFrom', 'libethcore/ChainOperationParams.h'), ('linearPricer / modexp gas', 'libethereum/Precompiled.cpp')])
P('C23', 'Request rate limits admit no more than configured and always recover',
  'An origin is refused once it exceeds its allowed number of calls per second or per minute or of simultaneous connections, stays refused for the configured ban time and is admitted again once the ban has passed and its calls in the window are within the limit; origins do not affect each other and the whole-server limit holds as well.',
  ['histories'], 'every sequence of calls with non-decreasing time stamps from every set of origins',
  'Tests replay a few timed sequences; the counters are time-window state machines.',
  ['libskutils/src/unddos.cpp', 'libskutils/include/skutils/unddos.h'], [('time_tracker_element / tracked_origin / algorithm::register_call_from_origin', 'libskutils/src/unddos.cpp')])
P('C24', 'LRU caches hold the most recently used entries within capacity',
  'A least-recently-used cache never holds more than its capacity, reports for a key the value it was inserted with, and evicts only the entry used longest ago.',
  ['histories'], 'every sequence of inserts, lookups and removals at every capacity',
  'Tests run short sequences.',
  ['libdevcore/LruCache.h'], [('LruCache::insert / touch / contains', 'libdevcore/LruCache.h')])
P('C25', 'A snapshot is accepted only with a supermajority of agreeing nodes',
  'During snapshot download a hash is accepted only if more than two thirds of the nodes sent it with valid signatures; responses that do not verify never count.',
  ['fault_sequences', 'inputs'], 'every set of responses from up to any number of faulty nodes',
  'Tests simulate a few fixed response sets.',
  ['libskale/SnapshotHashAgent.cpp', 'libskale/SnapshotHashAgent.h'], [('SnapshotHashAgent::voteForHash / verifyAllData', 'libskale/SnapshotHashAgent.cpp')])
P('C26', 'The reason of a reverted call is read only from the data it returned',
  'For whatever bytes a reverted call returns, the revert reason reported is the message encoded in them, up to its first zero byte, or empty when they encode none; nothing outside the returned data is ever read and no input stops the node.',
  ['inputs', 'programs'], 'every byte string a contract can return, in particular offsets and lengths that point outside it',
  'Tests return well-formed messages only; the data is chosen by whoever writes the contract.',
  ['libskutils/src/eth_utils.cpp', 'libskale/State.cpp'], [('call_error_message_2_str', 'libskutils/src/eth_utils.cpp')])
exec(open(V + '/tools/extra_props.py').read()) if os.path.exists(V + '/tools/extra_props.py') else None
import props
NA = {k: v for k, v in (l.rstrip('\n').split(' ', 1) for l in open(V + '/tools/not_applicable.txt') if l.strip())}
T.sort(key=lambda x: x['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for t in T: f.write(json.dumps(t) + '\n')
ck = []; na = []
for t in T:
    i = t['id']
    if i in props.PROPS:
        p = props.PROPS[i]
        ck.append({'property': i, 'quick_cmd': './check.py %s quick' % i, 'thorough_cmd': './check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                   'technique': p.get('technique', 'contract-based deductive verification: VCs generated from the clang AST of the real functions, discharged by z3/cvc5; bounded oracle harness for replay'),
                   'level': p['level'], 'level_note': p['note']})
    else: na.append({'property': i, 'reason': NA[i]})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': ck, 'not_applicable': na,
     'notes': 'See DESIGN.md. Undecided obligations (solver limits, code outside the translated subset) are printed and recorded in the evidence, never reported as violations.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for t in T: jsonschema.validate(t, s)
assert len({t['id'] for t in T}) == len(T)
print(len(ck), 'claimed,', len(na), 'not claimed')
