"""Writes properties.jsonl (kept as code so that titles and anchors stay readable)."""
import json
import os

T, W, F = 'bit/transaction.py', 'bit/wallet.py', 'bit/format.py'
S, R, E, M, U = 'bit/network/services.py', 'bit/network/rates.py', 'bit/network/fees.py', 'bit/network/meta.py', 'bit/utils.py'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Every signed single-key transaction is valid on the network',
  'Whenever a private key creates and signs a transaction from unspents it owns (legacy compressed, legacy uncompressed, '
  'nested segwit, or a mix), the returned hex is one well-formed, canonically encoded transaction whose every input '
  'passes full standard Bitcoin verification (strict-DER low-S SIGHASH_ALL signatures over the right digest, minimal '
  'pushes, clean stack, correct witness) against the outputs it spends. It is final (lock time 0) and spends no output twice.',
  ['inputs', 'configurations'], 'all keys, networks, input mixes and counts, output sets, amounts, output indexes, sequence numbers',
  'Tests compare a few fixed transactions byte for byte; they never verify a signature against a digest computed '
  'independently, nor counts above 252, large output indexes, short signatures or mixed input kinds.',
  [T, W, U, F], [('digest computation and input signing', 'bit/transaction.py sign_tx, calculate_preimages'),
                 ('serialisation', 'bit/transaction.py TxObj/TxIn/TxOut, bit/utils.py int_to_varint'),
                 ('unsigned transaction assembly', 'bit/transaction.py create_new_transaction')],
  observe=['hex returned by create_transaction / sign_transaction / send'])
p('C02', 'Recipients get exactly the requested amounts; change goes to its owner',
  'A created transaction pays every requested output, in the order given, exactly the requested amount to exactly the '
  'script of the requested address, plus at most one further value output which pays the leftover address (by default '
  'an address of the sender: the segwit one if any given unspent is segwit, else the legacy one). '
  'No other value output exists and every input is one of the offered unspents, used at most once. An amount that is negative or no number is refused; no output is left out.',
  ['inputs', 'configurations'], 'all output lists, address kinds, amounts and units, leftover choices, selection modes, key kinds',
  'Tests look at output tuples before serialisation for a handful of amounts below 2^32 and few address kinds.',
  [T, W, R], [('output and change assembly', 'bit/transaction.py sanitize_tx_data, construct_outputs'),
              ('default change address', 'bit/wallet.py create_transaction')],
  observe=['parsed outputs of the returned transaction'])
p('C03', 'The fee paid is the fee asked for',
  'With an absolute fee (also of zero) the transaction pays exactly that many satoshi. With a fee rate it pays at least the rate '
  'times its real virtual size and never more than the worst-case size estimate allows (plus, when change is '
  'dropped for an exact match, the cost of one input and one output); without an explicit fee the current recommended fast fee is used as the rate.',
  ['inputs', 'configurations'], 'all input kinds and counts, output counts and kinds, messages, rates, absolute fees, selection modes',
  'Tests check the estimate formula at three points and never relate the fee to the size of the transaction actually signed.',
  [T, M, W, E], [('size estimate', 'bit/transaction.py estimate_tx_fee'), ('selection', 'bit/transaction.py select_coins'),
                 ('input sizes', 'bit/network/meta.py UNSPENT_TYPES, bit/wallet.py get_unspents')],
  observe=['inputs minus outputs versus vsize of the returned transaction'])
p('C04', 'Coin selection: enough funds means success, too little means refusal',
  'Creating a transaction fails with the insufficient-funds error exactly when the offered unspents cannot cover '
  'the outputs plus fee, and never produces a transaction spending more than its inputs. When combining (the default) '
  'every offered unspent is spent exactly once; otherwise the inputs are a duplicate-free subset of the offered ones, whatever the random draw. Offering no unspents is refused; those of the wallet are not used in their place. A negative fee is refused.',
  ['inputs', 'schedules'], 'all unspent sets, targets, fees and random draws of the selection algorithm',
  'Selection is randomised; tests fix small unspent sets and see one draw of each.',
  [T], [('branch and bound plus random draw', 'bit/transaction.py select_coins')],
  observe=['inputs of the returned transaction, or the exception'])
p('C05', 'm-of-n multisig: any m cosigners complete a valid spend, fewer never do',
  'For every m-of-n contract, signing in turn by any m distinct cosigners in any order yields a transaction valid on the '
  'network for P2SH and nested-P2WSH unspents; with fewer than m distinct signers it is never valid, no signature already '
  'collected is lost, and the partial transaction stays well-formed. Signing twice with the same key does no harm, and '
  'signing an already complete transaction is refused. This holds as well when the partial transaction was re-serialised or part-signed by other wallet software, with or without placeholders for the missing signatures.',
  ['histories', 'inputs'], 'all m, n, key encodings, signer orders and subsets, repeated signers, input mixes',
  'Tests cover one 2-of-2 and one 2-of-3 history with fixed keys.',
  [T, W, U, F], [('signature merge', 'bit/transaction.py sign_tx'), ('signature extraction', 'bit/utils.py get_signatures_from_script'),
                 ('contract script', 'bit/format.py multisig_to_redeemscript')],
  observe=['hex after every signing step'])
p('C06', 'A key survives export and import in every format',
  'Exporting any valid private key as WIF, hex, bytes, integer, DER or PEM and importing it again yields the same '
  'secret and the same addresses; WIF additionally keeps network and public-key compression, and its text equals the standard encoding. Corrupted, malformed or empty WIF is rejected, never silently turned into another key; so is a number outside the range of private keys, in any format.',
  ['inputs'], 'all secrets in [1, n-1] (including those with leading zero bytes), both networks, both compressions, all formats',
  'Tests round-trip one sample key.',
  [W, F, 'bit/base58.py'], [('WIF coding', 'bit/format.py bytes_to_wif, wif_to_bytes'), ('constructors', 'bit/wallet.py wif_to_key, from_*')],
  observe=['to_* and from_* results'])
p('C07', 'Addresses are the standard ones for the key',
  'For every key or multisig contract, the address, segwit address and public key reported are exactly those the '
  'Bitcoin standards define for that secret, compression and network, so funds sent there are spendable by it. Multisig contracts given as a '
  'set of public keys sort them lexicographically and so give every cosigner the same addresses; lists keep their order. Contracts no set of signatures could satisfy '
  '(no or too many required signatures, a key of wrong length, more than 520 bytes) are refused.',
  ['inputs', 'configurations'], 'all secrets, public key encodings, m and n, set and list, hex and bytes, networks',
  'Tests compare a few sample keys; leading zero bytes, odd and even Y and large contracts are not reached.',
  [F, W, 'bit/base58.py', 'bit/crypto.py', 'bit/curve.py'],
  [('address derivation', 'bit/format.py public_key_to_address, multisig_to_address'), ('key ordering', 'bit/wallet.py MultiSig')],
  observe=['address, segwit_address, public_key, public_point'])
p('C08', 'Only genuine addresses are payable, and they map to the right script',
  'Every valid mainnet or testnet address (P2PKH, P2SH, segwit bech32 in either case) is accepted and maps to exactly '
  'its script; any string that is not a valid address - a corrupted character, a wrong checksum, length, version or '
  'prefix - is rejected with an error and never ends up as an output. Base58Check and bech32 encoding and decoding are inverse.',
  ['inputs'], 'all payloads, all single-character corruptions and transpositions, all malformed strings',
  'Tests use the BIP173 vectors and a few samples.',
  [F, T, 'bit/base58.py', 'bit/base32.py'], [('checksums', 'bit/base58.py b58decode_check, bit/base32.py bech32_decode'),
                                            ('script for address', 'bit/transaction.py address_to_scriptpubkey')],
  observe=['outputs of created transactions, or the exception'])
p('C09', 'Main network and test network never mix',
  'A key of one network never creates or prepares a transaction with an output (recipient or change) addressed to the other network: it refuses with '
  'an error. Every query and broadcast made on behalf of a key or address goes only to endpoints of its own network.',
  ['inputs', 'histories', 'configurations'], 'all wallet kinds, operations, address kinds, leftovers, provider failures',
  'Tests check one wrong-network output in the helper that validates outputs; network calls are not exercised offline.',
  [T, W, S], [('version check', 'bit/transaction.py sanitize_tx_data'), ('per network service lists', 'bit/network/services.py NetworkAPI')],
  observe=['outgoing requests; outputs; exceptions'])
p('C10', 'Provider failures are masked as long as one provider works',
  'A query for balance, unspents, transactions or a raw transaction returns the ledger\'s complete and correct answer '
  'whenever at least one configured provider works, no matter which others refuse connections, time out or answer with '
  'an error status, at any page of a multi-page answer. It fails with ConnectionError only when every provider failed, and always terminates.',
  ['fault_sequences', 'inputs'], 'all subsets and positions of failing providers, fault kinds, result sizes around page boundaries, both networks',
  'The provider tests need the Internet and cannot inject faults; the offline ones use stub callables.',
  [S, M], [('failover', 'bit/network/services.py NetworkAPI'), ('pagination', 'bit/network/services.py provider classes')],
  observe=['results and the request log'])
p('C11', 'Broadcast tells the truth',
  'Sending reports success only if a provider accepted exactly the transaction that was created, returns that '
  'transaction\'s id, and contacts no further provider after the first acceptance. If no provider accepts, it raises ConnectionError.',
  ['fault_sequences', 'histories'], 'all accept/reject/fault patterns of the providers, both networks, web services and own node',
  'Broadcast is excluded from the tests that run offline.',
  [S, W, T], [('broadcast loop', 'bit/network/services.py NetworkAPI.broadcast_tx'), ('txid', 'bit/transaction.py calc_txid')],
  observe=['request log, ledger, result'])
p('C12', 'Currency conversion is exact',
  'Converting an amount of satoshi, uBTC, mBTC or BTC to satoshi gives the exact value (fractions of a satoshi dropped), and '
  'back gives the exact decimal string, for every amount up to the money supply and every accepted number type. '
  'For fiat currencies the conversion uses that very currency\'s current rate from the first working provider, rounding down at the currency\'s precision.',
  ['inputs', 'fault_sequences'], 'all amounts and number types, all 25 currencies, provider faults',
  'Tests sample one or two amounts; fiat conversions need the Internet.',
  [R, U], [('conversion', 'bit/network/rates.py currency_to_satoshi, satoshi_to_currency'), ('rate providers', 'bit/network/rates.py RatesAPI')],
  observe=['conversion results and provider requests'])
p('C13', 'Cached rates and fees are fresh enough and never mixed up',
  'A cached conversion or recommended fee is one the provider served for that very currency or fee level, fetched at most the configured '
  'cache time ago; it is refetched once older and not refetched before. When the fee provider is unreachable the last known fee of the same level '
  '(or else the documented default) is returned instead of failing; an unreachable rate provider is reported as an error when no fresh rate is cached.',
  ['histories', 'schedules', 'fault_sequences'], 'all interleavings of calls, clock advances, cache-time changes, provider value changes and failures',
  'Tests step one currency through two cache states with real time.',
  [R, E], [('rate cache', 'bit/network/rates.py currency_to_satoshi_local_cache'), ('fee cache', 'bit/network/fees.py get_fee_local_cache')],
  state=[('cached rate and its timestamp', 'last value served per currency', R), ('cached fast and hour fee', 'last value per level', E)],
  observe=['results, provider request log, virtual clock'])
p('C14', 'Messages are stored verbatim in data outputs',
  'A message attached to a transaction appears, complete and in order, as the pushes of zero-value data-carrier outputs '
  'that parse as standard scripts of at most 80 data bytes each, following the payments. Without a message there is no data output.',
  ['inputs'], 'all texts and byte strings, lengths around push and chunk boundaries, any output set',
  'Tests use two five-byte messages and only count the outputs of a longer one.',
  [T, U], [('chunking and script', 'bit/transaction.py sanitize_tx_data, construct_outputs')],
  observe=['data outputs of the returned transaction'])
p('C15', 'Replace-by-fee signalling is exactly what was asked',
  'With replace-by-fee requested, every input of the resulting transaction signals replaceability (sequence at most 0xfffffffd) '
  'while lower sequence numbers already chosen are kept; without it every input carries exactly the sequence its unspent had (final by default).',
  ['inputs', 'configurations'], 'all input sets, sequence numbers, wallet kinds, direct and prepared transactions',
  'One fixed transaction is compared.',
  [T, M, W], [('opt in', 'bit/network/meta.py Unspent.opt_in_for_RBF'), ('use', 'bit/transaction.py sanitize_tx_data')],
  observe=['sequence fields of the returned transaction'])
p('C16', 'Cold-storage signing equals online signing and needs no network',
  'A prepared transaction (text) signed later by the key yields a valid transaction with exactly the unspents, outputs, change, messages, sequences '
  'and fee fixed at preparation, identical to creating it directly with the same choices, whether the unspents were given or fetched for the own legacy or segwit address. Signing performs no network traffic; unspents survive conversion to and from plain dictionaries unchanged.',
  ['inputs', 'configurations'], 'all wallet kinds, unspent kinds, outputs, messages, selection modes',
  'Preparation is marked as uncovered by the tests.',
  [W, T, M], [('prepare and sign', 'bit/wallet.py prepare_transaction, sign_transaction'), ('unspent dict', 'bit/network/meta.py Unspent.to_dict/from_dict')],
  observe=['prepared JSON, signed hex, request log'])
p('C17', 'Transactions parse and re-serialise losslessly',
  'Every well-formed transaction, segwit or not, is parsed into exactly its fields, re-serialises to identical bytes, '
  'and its reported id is the double-SHA256 of the witness-free form, whatever the number and size of its parts.',
  ['inputs'], 'all well-formed transactions: counts and script sizes across all varint widths, any witness structure',
  'Tests round-trip a few transactions with small counts.',
  [T, U], [('parser', 'bit/transaction.py deserialize'), ('serialiser', 'bit/transaction.py TxObj'), ('varints', 'bit/utils.py')],
  observe=['deserialize, bytes, calc_txid'])
p('C18', 'Signatures are canonical, deterministic and verified correctly',
  'Signing any data with any key gives the same strict-DER low-S signature every time (RFC 6979), accepted for that key and data. Verification '
  'accepts exactly the valid signatures and answers False - it does not crash - for any altered data, other key, or malformed signature.',
  ['inputs'], 'all keys, data, single-bit alterations, malformed encodings',
  'Tests verify one signature.',
  [F, W], [('verify', 'bit/format.py verify_sig, bit/wallet.py verify'), ('sign', 'bit/wallet.py sign')],
  observe=['sign and verify results'])
p('C19', 'A wallet\'s view matches the ledger through any history',
  'After synchronising, a wallet\'s unspents are exactly the ledger\'s unspent outputs of its addresses with right amounts, scripts and spend type, '
  'its balance is their sum in every unit, and its transactions are those touching its addresses. Over any history of payments between wallets the '
  'node accepts what they send and value is conserved: what leaves one wallet arrives at another or is the fee. What is done '
  'with one wallet never changes what another one shows.',
  ['histories', 'fault_sequences'], 'all interleavings of payments, syncs, confirmations, provider outages among single-key and multisig wallets',
  'No test runs a history; wallet tests that sync need the Internet.',
  [W, S, T], [('sync', 'bit/wallet.py get_unspents, get_balance, get_transactions'), ('send', 'bit/wallet.py send')],
  state=[('unspents, balance, transactions', 'the wallet\'s cached view', W)],
  observe=['wallet attributes versus the ledger'])
p('C20', 'Secrets stay in the key',
  'No operation other than explicit export ever exposes private key material: it never appears in outgoing requests, prepared or signed transactions, logs, '
  'textual representations or error messages. New keys are unpredictable: distinct on every call and independent of seeded pseudo-random state and of process forks.',
  ['histories', 'fault_sequences'], 'all operations, failures and encodings of the secret (raw, hex, decimal, WIF, reversed, base64)',
  'No test observes outgoing traffic or logs.',
  [W, S, T, 'bit/crypto.py'], [('requests', 'bit/network/services.py'), ('logging', 'bit/transaction.py, bit/network/fees.py, bit/network/services.py'),
                               ('repr', 'bit/wallet.py __repr__')],
  observe=['requests, log records, repr, exceptions, transaction bytes'])
p('C21', 'A connected node is used exclusively and exactly',
  'After connecting to an own node, every operation for that network goes only to this node with the given credentials, the other network '
  'being unaffected, and balances, unspents, transactions and broadcasts are reported exactly, to the satoshi. Node errors and outages surface as errors or failed broadcasts, '
  'never as wrong data, and using the node does not disturb any later conversion.',
  ['histories', 'fault_sequences', 'inputs'], 'all amounts up to the money supply, operation sequences, node errors and outages, both networks',
  'Tests stub the RPC session with a few answers.',
  [S, R], [('RPC client', 'bit/network/services.py RPCHost, RPCMethod'), ('wiring', 'bit/network/services.py NetworkAPI.connect_to_node')],
  observe=['request log, results'])
p('C22', 'Generated vanity keys own the address shown',
  'The key generator returns a key and an address such that importing the key gives a wallet with exactly that address, and the address starts with the requested prefix; '
  'invalid prefixes are rejected.',
  ['inputs', 'schedules'], 'all prefixes and worker schedules',
  'The generator is excluded from the tests.',
  ['bit/keygen.py', 'bit/cli.py', F], [('generation', 'bit/keygen.py generate_key_address_pair, generate_matching_address')],
  observe=['printed or returned key and address'])
p('C23', 'Signing a shared transaction touches only one\'s own inputs',
  'When a raw transaction spends outputs of several keys, each key signs exactly the inputs whose unspents it owns and leaves everything else - other inputs\' scripts '
  'and witnesses, outputs, sequences, version, lock time - unchanged and well-formed. Once every owner has signed, in any order, the transaction is valid. Offered nothing, the transaction stays as it is; an own segwit input of unknown amount is refused, not signed wrongly.',
  ['histories', 'inputs'], 'all mixes of legacy, segwit and multisig inputs, owners, signing orders, witness and non-witness encodings of the unsigned transaction',
  'One batching test with two keys.',
  [T, W], [('input matching', 'bit/transaction.py sign_tx'), ('ownership', 'bit/wallet.py can_sign_unspent')],
  observe=['hex after every signing step'])
p('C24', 'Public service calls respect the configured timeout',
  'Every request to a public block explorer service carries the currently configured service timeout (10 seconds unless changed), including follow-up pages and broadcasts.',
  ['histories', 'configurations'], 'all operations, providers, pages and timeout changes in any order',
  'Only the setter is tested.',
  [S], [('timeout', 'bit/network/services.py set_service_timeout')], observe=['timeout argument at the HTTP adapter'])
p('C25', 'Concurrent use gives the same results as sequential use',
  'Wallets, conversions and fee lookups used from several threads at once each return what they would return alone: transactions valid and paying '
  'the right outputs, conversions at the right rate, no cross-talk between wallets, currencies or networks.',
  ['schedules'], 'all thread interleavings of independent operations',
  'All tests are single threaded.',
  [R, E, T, W], [('shared caches', 'bit/network/rates.py, bit/network/fees.py'), ('signing state', 'bit/transaction.py')],
  observe=['results per thread'])
p('C26', "Requests leave the caller's data alone",
  'Creating, preparing, signing and sending transactions leave what the caller passed as it was - the list of outputs, the list of unspents and every field of '
  'the unspents - also when the request is refused. A wallet\'s balance, unspents and transactions change only by reading from the network, and then hold everything '
  'the network reported for its addresses. So any request gives the same transaction whether earlier requests were made with the same wallet and lists or not: '
  'replace-by-fee, a subset of the coins or a message asked for once does not leak into the next request.',
  ['inputs', 'histories'], 'all histories of requests over one wallet and one set of lists, all wallet kinds and options, refused requests in between',
  'The tests make each request with fresh objects and do not look at them afterwards.',
  [T, W, M], [('request preparation', 'bit/transaction.py sanitize_tx_data, sign_tx'), ('wallets', 'bit/wallet.py create_transaction, prepare_transaction, sign_transaction, send')],
  observe=['arguments before and after', 'wallet attributes', 'returned transactions'])
p('C27', 'Equality reflects content',
  'Keys compare equal exactly when they hold the same secret (whatever network, compression or import format); unspents exactly when amount, script, '
  'transaction id, index, segwit flag and sequence agree (confirmations do not matter); parsed transactions exactly when every serialised part agrees, '
  'witnesses included. Membership in lists follows.',
  ['inputs'], 'all pairs of keys, unspents and transactions, in particular pairs differing in a single part',
  'Tests compare a few equal objects and hardly any nearly equal ones.',
  [T, W, M], [('keys', 'bit/wallet.py BaseKey.__eq__'), ('unspents', 'bit/network/meta.py Unspent.__eq__'), ('transactions', 'bit/transaction.py TxIn, TxOut, TxObj')],
  observe=['results of ==, != and in'])
p('C28', 'A failed synchronisation leaves the wallet as it was',
  'When reading balance, unspents or transactions from the network fails - asked for directly, or on behalf of creating, signing or sending, at whatever request the '
  'outage begins - the wallet\'s balance, unspents and transactions are exactly what they were before, never a mixture. When it succeeds they are all the ledger\'s. '
  'After the outage the next synchronisation works as if nothing had happened.',
  ['fault_sequences', 'crash_points', 'histories'], 'every request at which an outage may begin or end, all operations, wallet kinds, public services and own node',
  'No test makes a provider fail in the middle of an operation.',
  [W, S], [('synchronisation', 'bit/wallet.py get_unspents, get_balance, get_transactions')], observe=['wallet attributes before and after', 'HTTP exchanges'])
p('C29', 'Public services are only spoken to over verified TLS',
  'Whatever is asked - balances, histories, unspents, transactions, broadcasts, recommended fees, exchange rates - and whatever failed before, TLS errors included, every '
  'request goes to a host of the documented services, over HTTPS on its default port, with the certificate verified, and carries no credentials; no failure '
  'makes the library retry without TLS or without verification. A user\'s own node is asked exactly the way it was connected: over HTTP or HTTPS as requested, verified '
  'against the CA bundle given, with its own credentials, which no public service ever sees.',
  ['fault_sequences', 'configurations', 'histories'], 'all operations, both networks, every provider failing in every way at first or follow-up requests, node connections in between',
  'Tests mock the HTTP layer or talk to the live services; none looks at scheme, host or verification, least of all after an error.',
  [S, R, E], [('endpoints', 'bit/network/services.py, bit/network/rates.py, bit/network/fees.py'), ('own node', 'bit/network/services.py RPCMethod, RPCHost')],
  observe=['scheme, host, port, verify, cert, headers of every HTTP request'])
p('C30', 'What needs no network stays offline, and nothing leaves a trace',
  'With unspents and fee given and amounts in bitcoin units, creating, preparing, signing and co-signing make no network request, and neither do building keys and contracts, addresses, '
  'exports, signing and verifying messages, parsing, converting between bitcoin units, or importing the library - when they succeed and when they are refused - damaged prepared transactions included. What is missing '
  'is all that is asked for: an omitted fee asks only the fee service, a fiat amount only the rate providers for that currency, omitted unspents only the explorers, about the wallet\'s own '
  'addresses, sending only broadcasts. None of these writes files, starts processes, leaves threads or files open, or changes settings of the interpreter (decimal '
  'context, recursion limit, random seed, signal handlers, environment, working directory, default socket timeout, locale). Searching vanity addresses is excluded.',
  ['inputs', 'configurations', 'histories'], 'all wallet kinds, networks, what is supplied and what is not, accepted and refused requests',
  'Tests assert results, not the absence of side effects.',
  [W, T, U, R, E, S], [('what is asked', 'bit/transaction.py sanitize_tx_data'), ('wallet operations', 'bit/wallet.py'), ('conversions', 'bit/network/rates.py')],
  observe=['HTTP requests', 'interpreter audit events', 'interpreter settings before and after'])
p('C31', 'The same request gives the same result in every process',
  'Given the same state of the random module, creating, preparing, signing and co-signing transactions, contracts, addresses, exports, signatures, parsing, conversions and queries of the '
  'network give exactly the same results - and the same requests are refused - in every process: whatever its hash seed, optimisation level, locale, time zone, clock, working '
  'directory, garbage collection and order of imports, and whatever unrelated requests came before. Cosigners in different processes therefore agree on addresses and scripts.',
  ['configurations', 'inputs', 'histories'], 'all wallet kinds and requests, hash seeds, -O and -OO, locales, time zones, clocks, orders of requests',
  'Tests run in one process with one interpreter configuration; in particular with one hash seed, which hides dependence on the order of sets.',
  [T, W, U, F, S], [('ordering', 'bit/transaction.py sanitize_tx_data, sign_tx'), ('contracts', 'bit/wallet.py MultiSig'), ('answers', 'bit/network/services.py')],
  observe=['results in separate processes'])
p('C32', 'An interrupted request does no lasting harm',
  'When a request is interrupted - by KeyboardInterrupt or MemoryError, at any line or before or after any answer of the network - it either still delivers its right '
  'result or ends with an exception, and everything asked afterwards, with the same objects, gives what it gives without the interruption: transactions, signatures, keys, '
  'conversions and fees at current prices (interrupted at the very moment of storing one, the former price may serve one more cache time), and views equal to the ledger. The caller\'s data and the interpreter settings are unchanged, and nothing hangs.',
  ['crash_points', 'fault_sequences', 'histories'], 'all requests and wallet kinds, interrupts at every line and network answer, cold, warm and expired caches',
  'No test interrupts a request.',
  [W, T, R, E, S], [('caches', 'bit/network/rates.py, bit/network/fees.py'), ('synchronisation', 'bit/wallet.py'), ('signing', 'bit/transaction.py sign_tx')],
  observe=['results after the interruption', 'lines executed', 'HTTP exchanges'])
p('C33', 'Malformed input is refused promptly and changes nothing',
  'Parsing a serialized transaction, computing its id and signing it accept exactly one complete transaction: anything cut off at any byte or digit, with data following, or with counts and '
  'lengths beyond the data is refused with an exception, whole or partial, legacy or segwit, single key or contract. No input - transactions, prepared requests, keys in any format, '
  'addresses, public keys, signatures, scripts - keeps the library busy or claims memory beyond a small multiple of its size, however large the numbers it claims. A malformed signature is never '
  'taken for valid, and no refused input changes the wallet or the unspents.',
  ['inputs'], 'all truncations, extensions, inflated counts and lengths, flipped, removed, inserted, repeated and spliced bytes, all formats',
  'Tests parse a handful of well-formed transactions and a few bad keys; the space of damaged inputs is unbounded.',
  [T, W, U, F], [('parser', 'bit/transaction.py deserialize'), ('primitives', 'bit/utils.py read_var_int, read_bytes'), ('signing', 'bit/wallet.py sign_transaction'), ('formats', 'bit/format.py, bit/base58.py, bit/base32.py')],
  observe=['acceptance against an independent parser', 'library lines executed per call', 'wallet and unspents before and after'])
p('C34', 'The main and the test network\'s classes behave alike',
  'PrivateKeyTestnet and MultiSigTestnet do on the test network exactly what PrivateKey and MultiSig do on the main network: asked for the same with the same secrets, unspents and randomness - '
  'only addresses and the WIF version differ - they give the same scripts, exports, transactions, prepared data, partial signatures and broadcasts, show the same balance, unspents and '
  'transactions of equal ledgers, and refuse the same requests; no documented method of one lacks an argument or default of the other.',
  ['inputs', 'configurations'], 'all wallet kinds, requests, ways of asking and refusals, on both networks',
  'The classes are written out twice; tests run a few requests on one of them and skip most of the other\'s network paths.',
  [W, S], [('classes', 'bit/wallet.py PrivateKey, PrivateKeyTestnet, MultiSig, MultiSigTestnet'), ('queries', 'bit/network/services.py NetworkAPI')],
  observe=['every result of the same request on both networks', 'signatures of the public methods'])

p('C35', 'Equivalent requests give the same transaction',
  'A request means the same in whatever words it is made: amounts in any unit and type with the same exact value, outputs as tuples, lists or Output, unspents as built, copied or stored with '
  'to_dict and JSON, hexadecimal digits and segwit addresses in either case, messages as text or as its UTF-8 bytes, defaults (fee, change address, flags) left out or given, arguments by '
  'position or keyword, wallets from any import format and contracts with public keys in any encoding, a fresh wallet or one used before, created, sent, or prepared and then signed: given the '
  'same randomness the transactions are byte for byte the same, and what one wording is refused for the others are refused for as well.',
  ['inputs', 'histories'], 'all requests and all combinations of rewordings',
  'Tests compare a few fixed requests with fixed results in one wording; the combinations are unbounded.',
  [W, T, F, R, M], [('requests', 'bit/wallet.py create_transaction, prepare_transaction, sign_transaction, send'), ('meaning', 'bit/transaction.py sanitize_tx_data'), ('unspents', 'bit/network/meta.py Unspent')],
  observe=['transactions for the same request in different wordings'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
