"""property id -> units, harness, texts"""
import importlib, os
MPROF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/mprof_stub.cpp")
def lazy(mod, *attrs):
    def f(tier):
        m = importlib.import_module(mod); out = []
        for a in attrs: out += getattr(m, a)
        if tier == 'thorough':
            for a in attrs: out += getattr(m, a + '_THOROUGH', [])
            out = [dict(u, timeout_ms=120000, budget=3600) for u in out]
        return out
    return f
CORE = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp']
PROPS = {}
def prop(pid, **kw): PROPS[pid] = kw
RLPH = dict(main='rlp.cpp', sources=CORE, libs=['-lboost_system'], what='repository RLP code against an independent encoder/decoder: all inputs up to 2 bytes, structured headers, random item trees and mutations')
prop('C01', level='proof', note='Proof per function for all inputs under the listed assumptions; the random/enumerated harness is an additional bounded check on the compiled code.', units=lazy('rlp', 'ENC_UNITS'), harness=RLPH, assumptions=['stream output shorter than 2^40 bytes', 'integers below 2^256 (larger integers only in the bounded harness)', 'noteAppended proved for nesting depth 0, 1 and 2 with arbitrary counts, positions and contents; deeper nesting only in the bounded harness'])
prop('C02', level='proof', note='Proof per function for all inputs under the listed assumptions; the random/enumerated harness is an additional bounded check on the compiled code.', units=lazy('rlp', 'DEC_UNITS'), harness=RLPH, assumptions=['input shorter than 2^40 bytes'])
NOTE = 'Proof per function for all inputs under the listed assumptions; the enumerated/random harness on the compiled code is an additional bounded check and supplies failing inputs.'
prop('C03', level='proof', note=NOTE, units=lazy('conv', 'UNITS'), harness=dict(main='conv.cpp', sources=CORE + ['libdevcore/CommonJS.cpp', 'libethcore/CommonJS.cpp'], libs=['-lboost_system'], what='hex, big-endian and JSON-RPC number conversions against independent implementations: all texts up to 2 characters, all powers of two +-1, random bytes, texts and numbers'),
     assumptions=['texts shorter than 2^32-4 characters (32-bit index in fromHex)', 'decimal parsing (boost::multiprecision / std::stoi) only in the bounded harness', 'iostream-based toJS overloads only in the bounded harness'])
prop('C04', level='proof', note=NOTE, units=lazy('fhash', 'UNITS'), harness=dict(main='hash.cpp', sources=CORE, libs=['-lboost_system'], what='hash operators, constructors and bloom functions of 4, 8, 16, 20, 32 and 256 byte hashes against byte-vector definitions, every single-bit value of 32 bytes'),
     assumptions=['proved for widths 8, 20, 32 and 256 bytes (comparison and integer conversion not for 256); 4 and 16 bytes only in the bounded harness', 'byte strings shorter than 2^32', 'little-endian machine for the 64-bit comparison of 32-byte hashes'])
prop('C06', level='model_checking', note='For masks of 0 to 3 ranges (arguments 0 to 2) with arbitrary bounds every operation is proved to give the set it denotes; more ranges only in the random/enumerated harness.', units=lazy('rangemask', 'UNITS'), harness=dict(main='rangemask.cpp', sources=[], libs=[], what='range masks against std::set: all masks and ranges in windows of 6 elements, random sequences of 8 operations, windows at both ends of the unsigned range'),
     assumptions=['masks with at most 3 ranges (all positions); longer ones only in the bounded harness', 'ranges and elements added or removed lie inside the ground range, as documented'])
prop('C07', level='proof', note=NOTE, units=lazy('trie', 'UNITS'), harness=dict(main='trie.cpp', sources=CORE + ['libdevcore/TrieCommon.cpp', 'libdevcore/SHA3.cpp', MPROF], libs=['-lboost_system'], what='hex-prefix encoding, key decoding and nibble views against plain nibble vectors: all paths up to 3 nibbles, random longer ones, views at odd and even offsets'),
     assumptions=['nibble strings shorter than 2^30 (32-bit indices)', 'RLP item access in isLeaf/keyOf/uniqueInUse replaced by its contract (C02)'])
prop('C17', level='proof', note=NOTE, units=lazy('patch', 'UNITS'), harness=dict(main='patch.cpp', sources=CORE + ['libethereum/SchainPatch.cpp', 'libethcore/ChainOperationParams.cpp', 'libdevcore/Log.cpp'], libs=['-lboost_system', '-lboost_log', '-lboost_thread'], what='patch activation, patch names and fork rules against an independent table: all names, random timestamps at and around the activation times, random fork blocks'),
     assumptions=['reading the configuration file into the chain parameters (ChainParams::loadConfig) is outside', 'patch vector has one entry per declared patch'])
prop('C24', level='proof', note='Proof for caches of any size: every well-formed cache is split at the key concerned into at most three opaque runs and named entries, so no bound on the number of entries.', units=lazy('lru', 'UNITS'), harness=dict(main='lru.cpp', sources=[], libs=[], what='random sequences of up to 60 operations on caches of capacity 1 to 40 against a plain vector ordered by last use, integer and string keys'),
     assumptions=['capacity at least 1', 'std::list and std::unordered_map behave as specified (trusted models); keys compare by equality'])
prop('C20', level='proof', note=NOTE, units=lazy('base64', 'UNITS'), harness=dict(main='base64.cpp', sources=['libdevcore/Base64.cpp'] + CORE, libs=['-lboost_system'], what='base-64 coding against an independent bit-stream implementation: all byte strings and texts of up to 2 characters, random longer ones and mutated encodings, under the address sanitizer'),
     assumptions=['encoded text shorter than 2^31 (int index in fromBase64), input shorter than 2^40', 'isalnum in the "C" locale'])
CCOL = ['libskutils/src/console_colors.cpp', 'libskutils/src/utils.cpp']
prop('C22', level='proof', note=NOTE, units=lazy('precomp', 'UNITS'), harness=dict(main='precomp.cpp', sources=CORE + ['libethereum/Precompiled.cpp', 'libethcore/ChainOperationParams.cpp', 'libethereum/SchainPatch.cpp', 'libdevcore/Log.cpp', 'libdevcore/SHA3.cpp', 'libdevcrypto/Hash.cpp', 'libdevcore/FileSystem.cpp', MPROF] + CCOL, libs=['-lboost_system', '-lboost_log', '-lboost_thread', '-lboost_filesystem', '-lcryptopp', '-lcrypto'], what='prices and results of the arithmetic, hash, identity and file-storage precompiles against independent definitions; curve operations and key recovery are stand-ins that record their arguments'),
     assumptions=['input shorter than 2^40 bytes', 'msb and powm of boost::multiprecision (trusted)', 'modexp execution for length words that fit the memory, as its assertions require', 'ecrecover, sha256 and ripemd160 results only in the bounded harness; the file-storage precompiles (argument decoding, bounds, results; the operations themselves are stand-ins) only in the bounded harness, words beyond 64 bits count by their low 64 bits; the curve operations themselves (libff) and the configuration and consensus precompiles are outside'])
prop('C05', level='proof', note=NOTE, units=lazy('logfilter', 'UNITS'), harness=dict(main='logfilter.cpp', sources=CORE + ['libethereum/LogFilter.cpp', 'libethcore/LogEntry.cpp', 'libethereum/TransactionReceipt.cpp', 'libdevcore/SHA3.cpp', MPROF] + CCOL, libs=['-lboost_system', '-lboost_log', '-lboost_thread', '-lboost_filesystem', '-lcryptopp', '-lcrypto'], what='filters built through the public interface against a direct definition of matching; blooms recomputed bit by bit; bloom possibilities against the dimension-wise test'),
     assumptions=['sha3 is some function of the value; the bloom operations obey the contracts proved for C04 (shiftBloom adds, |= keeps)', 'a receipt carries the bloom of its own log (as its constructors make it)', 'bloomPossibilities only in the bounded harness', 'lists shorter than 2^40, at most 4 topics per entry (EVM)'])
prop('C19', level='proof', note=NOTE, units=lazy('receipt', 'UNITS'), harness=dict(main='receipt.cpp', sources=CORE + ['libethcore/LogEntry.cpp', 'libethereum/TransactionReceipt.cpp', 'libethereum/BlockDetails.cpp', 'libdevcore/SHA3.cpp', MPROF] + CCOL, libs=['-lboost_system', '-lboost_log', '-lboost_thread', '-lboost_filesystem', '-lcryptopp', '-lcrypto'], what='encodings against a reference encoder, decoded content equal, malformed receipts rejected'),
     assumptions=['RLPStream appends and RLP reads obey the contracts of C01 and C02 (an item read back is the item appended)'])
prop('C18', level='proof', note=NOTE, units=lazy('monitor', 'UNITS'), harness=dict(main='monitor.cpp', sources=CORE + ['libethereum/InstanceMonitor.cpp', 'libdevcore/StatusAndControl.cpp', 'libdevcore/Log.cpp'] + CCOL, libs=['-lboost_system', '-lboost_log', '-lboost_thread', '-lboost_filesystem'], what='random histories of scheduling, preparing, restarting and overwriting the schedule file in a scratch directory against a model schedule; readable, malformed and missing files; status flags and the status file'),
     assumptions=['the file system and the JSON library obey their contracts (a file holds what was written last, parsing returns the tree that was written or throws)', 'scheduling can write the file (a write error is not reported by the code)'])
prop('C23', level='proof', note=NOTE, units=lazy('unddos', 'UNITS'), harness=dict(main='unddos.cpp', sources=['libskutils/src/unddos.cpp', 'libskutils/src/multithreading.cpp'] + CCOL, libs=['-lboost_system', '-lboost_thread', '-lboost_filesystem'], what='random timed histories of calls and connections of up to 4 origins under random settings (limits 0 to 60 and none, per-method limits, wildcards, whole-server limits) against a reference that keeps every call; settings through JSON; window counting'),
     assumptions=['time stamps do not decrease and stay below 2^40', 'std::lower_bound and std::upper_bound on an ordered range, std::set and std::map as specified', 'wildcard comparison (wildcmp), settings through JSON and the rule appended when none matches only in the bounded harness'])
DBSRC = CORE + ['libdevcore/SplitDB.cpp', 'libdevcore/LevelDB.cpp', 'libbatched-io/batched_db.cpp', 'libbatched-io/batched_io.cpp', 'libdevcore/Log.cpp', MPROF] + CCOL
DBLIB = ['-lboost_system', '-lboost_log', '-lboost_thread', '-lboost_filesystem', '-lcryptopp', '-lcrypto', '-lleveldb']
prop('C11', level='proof', note=NOTE, units=lazy('dbs', 'SPLIT_UNITS'), harness=dict(main='dbsplit.cpp', sources=DBSRC, libs=DBLIB, what='random histories of inserts, deletes, batches, commits, reverts, look-ups, full and prefix iterations on up to 190 logical databases over an in-memory store and over LevelDB in a scratch directory, against one plain map per logical database'),
     assumptions=['the physical store obeys its interface: operations act on the key given, an iteration calls the callback for each entry (with prefix: each entry beginning with it) until it returns false; one arbitrary entry stands for all', 'at most 256 logical databases on one store (the prefix is one byte; nothing in the code limits the number)', 'the store holds no empty key (every key written through a logical database has the prefix byte)', 'single-threaded (the locks themselves are not modelled)'])
prop('C12', level='proof', note=NOTE, units=lazy('dbs', 'BATCH_UNITS'), harness=dict(main='dbbatch.cpp', sources=DBSRC, libs=DBLIB, what='random histories of pending inserts, deletes, commits and reverts over a recording store, over LevelDB in a scratch directory (several batches, reopening, compaction), and with the process ending at a chosen commit point'),
     assumptions=['LevelDB applies a write batch atomically and in the order of its operations', 'dynamic_cast succeeds (a batch of another database is not passed to LevelDB::commit)', 'one commit at a time per batching database (its lock is not modelled)'])
prop('C13', level='proof', note=NOTE, units=lazy('dbs', 'ROT_UNITS'), harness=dict(main='dbrotate.cpp', sources=DBSRC + ['libdevcore/ManuallyRotatingLevelDB.cpp', 'libbatched-io/batched_rotating_db_io.cpp'], libs=DBLIB, what='random histories of writes, deletes, batches, rotations, reopenings and processes ending at each crash point of a rotation, 2 to 5 pieces, with and without archive, against a list of maps'),
     assumptions=['the pieces obey the DatabaseFace contract (LevelDB: C12)', 'boost::filesystem removes and renames directories as documented; a crash inside remove_all (half-removed directory) is outside', 'at least 2 pieces; repair after a crash: at least 3 (with 2, which of two marks is newer cannot be told)', 'no batch is alive during a rotation, as its assertion requires', 'a delete inside a batch acts on the newest piece only, as documented by the code; only single deletes reach all pieces'])
prop('C10', level='proof', note=NOTE, units=lazy('overlay', 'UNITS'), harness=dict(main='overlay.cpp', sources=DBSRC + ['libskale/OverlayDB.cpp', 'libethereum/SchainPatch.cpp', 'libethcore/ChainOperationParams.cpp', 'libethcore/LogEntry.cpp', 'libethereum/TransactionReceipt.cpp', 'libethereum/BlockDetails.cpp', 'libdevcore/SHA3.cpp'], libs=DBLIB, what='random histories of inserts, deletes, commits (some with a first failing try), rollbacks, clearing and reopening over an in-memory store and LevelDB, against a reference with committed and current content'),
     assumptions=['the store below (batched_db over LevelDB) obeys its interface contract: a failed commit applies nothing (its pending operations may be lost), a successful one applies all pending operations in order; C11, C12 and C13 are about that contract', 'nothing is pending in the store between two operations of the overlay', 'the decimal text of the storage counter determines the number (boost::multiprecision)', 'sleeping and process exit in the retry loop of commit are modelled, not executed', 'an empty value counts as absent (it is never stored; proved)', 'iterations (accounts, storage, empty) show committed content only, as in the original design; two arbitrary entries are followed', 'addReceiptToPartials and copyStorageIntoAccountMap are covered by the harness or not at all, not by contract', 'clearDB: bounded, at most three entries visited'])

STSRC = DBSRC + ['libskale/OverlayDB.cpp', 'libskale/State.cpp', 'libethereum/Account.cpp', 'libethereum/SchainPatch.cpp', 'libethcore/ChainOperationParams.cpp', 'libethcore/LogEntry.cpp', 'libethereum/TransactionReceipt.cpp', 'libethereum/BlockDetails.cpp', 'libdevcore/SHA3.cpp', 'libdevcore/TrieCommon.cpp']
STASM = ['State::account is used by its contract (the cached account; else the stored one brought into the cache; else none); State::account itself: see the unit list', 'the overlay database obeys its contract (C10): a look-up returns the stored value', 'clean cached accounts equal the stored ones and their overlay entries are the stored values; accounts without code have version 0; a missing account has no storage slots', 'sha3 is an unknown function; it is EmptySHA3 only for the empty string']
prop('C08', level='proof', note=NOTE, units=lazy('state', 'UNITS8'), harness=dict(main='state.cpp', sources=STSRC, libs=DBLIB, what='random histories of credits, debits, transfers, nonce, code and storage changes, account creations, nested savepoints, rollbacks (also after a refused storage change) and commits with and without removal of empty accounts, against plain maps copied at every savepoint'),
     assumptions=STASM + ['ContractStoragePatch enabled (before it, a rollback clears the storage counters; that is consensus history)', 'setStorage, setCode and clearStorageValue act on existing accounts, setCode on an account without code that was changed in this transaction (contract creation)', 'one change is followed by rollback to the savepoint before it; the account may be replaced in between by any other with the same observable content, which gives nesting and longer histories by induction over the change log', 'kill and clearStorage are not logged by design (self-destruction takes effect at the end of the transaction) and are outside', 'storage counters stay below 2^200', 'the file-storage cache reset is only called'])
prop('C09', level='proof', note=NOTE, units=lazy('state', 'UNITS9'), harness=dict(main='transfer.cpp', sources=STSRC, libs=DBLIB, what='random histories with credits, debits and transfers (also to oneself, of zero, and of more than the balance), sums compared before and after'),
     assumptions=STASM + ['the sum of the two balances is below 2^256 (no minting beyond that is possible)', 'an absent account counts with the initial funds of the configuration, as State::balance reports it'])
TXSRC = CORE + ['libethcore/TransactionBase.cpp', 'libdevcore/SHA3.cpp', 'libdevcore/Address.cpp', 'libdevcore/Log.cpp', 'libethcore/Common.cpp', MPROF.replace('mprof_stub', 'devcrypto'), MPROF] + CCOL
prop('C14', level='proof', note=NOTE, units=lazy('txn', 'UNITS'), harness=dict(main='txcodec.cpp', sources=TXSRC, libs=DBLIB + ['-lsecp256k1'], what='encodings of random transactions of the three types, whole and spoilt (fields missing, added, swapped, replaced, non-canonical, cut, with flipped bits), with and without signature checks, against an independent decoder and encoder; transactions signed with random keys decoded with full checks'),
     assumptions=['the RLP reader and writer obey C01 and C02: the strict reader accepts one canonical encoding per item, a number item has one value, an item appended is encoded as that item', 'recovery of an address from a signature (libsecp256k1) and keccak are arbitrary functions', 'addresses and storage keys inside an access list are only required to be data (the code does not check their lengths)', 'fields the reader rejects with anything but a dev::Exception are outside'])
EXSRC = STSRC + ['libethereum/Executive.cpp', 'libethereum/ExtVM.cpp', 'libethereum/Transaction.cpp', 'libethcore/TransactionBase.cpp', 'libethcore/SealEngine.cpp', 'libethcore/BlockHeader.cpp', 'libethcore/Common.cpp', 'libevm/LegacyVM.cpp', 'libevm/LegacyVMCalls.cpp', 'libevm/LegacyVMOpt.cpp', 'libevm/VMFactory.cpp', 'libevm/ExtVMFace.cpp', 'libevm/Instruction.cpp', 'libdevcore/Address.cpp']
prop('C15', level='proof', note=NOTE, units=lazy('exec', 'UNITS'), harness=dict(main='exec.cpp', sources=EXSRC, libs=DBLIB, what='random transactions (transfers, contracts that stop, fail, loop, revert, clear storage, call on and destroy themselves, creations, precompiled contracts; amounts up to the limits of 256 bits, external gas, senders that are the block author) executed by Executive with the interpreter over State, against a ledger kept beside it'),
     assumptions=['State obeys its contracts (C08, C09: balances, nonces, savepoints and rollback)', 'the virtual machine returns no more gas than it was given and changes balances only through calls, creations and self-destruction (arbitrary otherwise); the gas of a precompiled contract is not negative', 'the sum of all balances is below 2^256; the block gas limit and external gas are below 2^63 (refunds are computed in 64-bit integers); prices of the schedule are below 2^30', 'a created address differs from its creator', 'the set of self-destructed accounts: bounded, at most two entries', 'exceptions of the machine the code does not expect (go() ends the process for them) are outside', 'the validity of the signature, proof-of-work and the chain-parameter tables are used by contract'])
VMSRC = CORE + ['libethcore/BlockHeader.cpp', 'libethcore/Common.cpp', 'libethcore/SealEngine.cpp', 'libevm/LegacyVM.cpp', 'libevm/LegacyVMCalls.cpp', 'libevm/LegacyVMOpt.cpp', 'libevm/ExtVMFace.cpp', 'libevm/Instruction.cpp', 'libdevcore/SHA3.cpp', 'libdevcore/Address.cpp', 'libdevcore/Log.cpp', MPROF.replace('mprof_stub', 'devcrypto'), MPROF] + CCOL
prop('C21', level='proof', note=NOTE, units=lazy('legacyvm', 'UNITS'), harness=dict(main='legacyvm.cpp', sources=VMSRC, libs=DBLIB, cflags=['-U_GLIBCXX_ASSERTIONS'], what='every byte as an instruction at every small stack height, the stack limit, all eleven schedules; random programs (arithmetic at the edges, memory, copies, jumps, storage, logs, calls, creations) run by LegacyVM with jump dispatch against an independent interpreter: outcome, output, gas left, refunds, journal of effects'),
     assumptions=['the gas of a run is below 2^62; the memory already in use is at most 2^40 bytes', 'the table of stack needs and price tiers is filled in by the code as the independent table says, and all schedules price memory at 3 per word plus a 512th of the square, other prices below 2^24: checked for all 256 instructions and all 11 schedules by the harness', 'the case bodies are verified in the loop-and-switch variant of the dispatch; the jump-dispatch variant runs the same text and is driven by the harness', 'the outside (storage, balances, calls, creations, hashes) gives arbitrary answers; a call or creation returns no more gas than it was given and does not touch the memory of the caller', 'addresses are below 2^160; pointer arithmetic one element below the stack array is not judged', 'a schedule without EIP-150 passes the whole requested gas (as the schedule says)'])
prop('C26', level='proof', note=NOTE, units=lazy('ethutils', 'UNITS'), harness=dict(main='ethutils.cpp', sources=['libskutils/src/eth_utils.cpp'], libs=[], what='returned data with and without the selector, with offsets and lengths inside, at the edge of and far outside the data, in buffers of exact size under AddressSanitizer, against an independent reading'),
     assumptions=['only the low 32 bits of the offset and length words are read, and the length word is expected in the usual place whatever the offset (as the code does)'])
