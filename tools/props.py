#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

MEM, BOLT, BMD, RED, RMD = 'provider.go', 'provider/bolt/provider.go', 'provider/bolt/metadata.go', 'provider/redis/provider.go', 'provider/redis/metadata.go'

prop('C01', 'A closed provider refuses every operation and touches nothing',
 'Once Close has returned on any storage provider, every later operation given well-formed arguments reports the provider-closed error, a second Close included. No operation or background task of a closed memory or bolt provider reads or changes stored sessions, and whether the provider is closed is decided inside the same exclusive or shared section in which the stored state is used. Close itself succeeds exactly once and stops the background tasks.',
 ['schedules', 'histories'], 'every operation of every provider, at every interleaving with Close and with the background tasks',
 'The tests close an idle memory or bolt provider once and call five operations; they never race Close with an operation or a ticker, never call Clear/Refresh/Create/Destroy after it, and never run the redis provider.',
 [MEM, BOLT, RED],
 [('done flag tested under the lock by each operation', 'provider.go, provider/bolt/provider.go'), ('client errors mapped by toError', RED), ('Close', 'all three providers')],
 [('done', 'provider is closed', MEM+', '+BOLT+', '+RED)], ['error returned by each operation'])

prop('C02', 'Session data is served only while the access token is live',
 'Check, Put, Get, Keys and Delete succeed only for a token that is stored, whose refresh lifetime has not ended and whose access lifetime has not ended, and no session data is read or written otherwise. A token that is unknown, or whose refresh lifetime has ended (from its deadline on), is reported as not existing; otherwise one whose access lifetime has ended (from its deadline on) is reported as expired. Absent a storage or decoding failure a live token is never refused, and all providers agree on this.',
 ['inputs', 'histories', 'schedules'], 'every token, every stored state and clock value, every provider and every one of the five operations',
 'The tests sample a handful of sleeps on the memory and bolt providers; the redis provider has no test, and neither the ordering of the two lifetimes nor a concurrent expiry is exercised.',
 [MEM, BOLT, RED, BMD, RMD],
 [('IsDeleted/IsExpired checks in each operation', MEM+', '+BMD+', '+RMD), ('unsafeGet / unsafeCheck / getMetadata', MEM+', '+BOLT+', '+RED)],
 [('access and refresh deadlines', 'when the token stops being usable / refreshable', MEM+', '+BMD+', '+RMD)])

prop('C03', 'Only the exact current token pair of a live session can be refreshed',
 'A provider refresh succeeds only if the access token is stored, its refresh lifetime has not ended, the presented refresh token is exactly the one stored with it, and all four tokens carry the same user id. An unknown or dead session is reported as not existing, a wrong refresh token and a differing id each with their own error, never as success; an expired access token alone is no reason to refuse. A successful refresh consumes the old pair, so it can never succeed a second time.',
 ['inputs', 'histories', 'schedules'], 'every quadruple of tokens and every stored state, on every provider',
 'One refresh per provider is tested with a correct pair; wrong, foreign or dead pairs and any refresh on redis are not.',
 [MEM, BOLT, RED],
 [('checkID and stored-refresh comparison before any change', 'Refresh of each provider')],
 [('refresh', 'refresh token stored with the session', MEM+', '+BMD+', '+RMD)])

prop('C04', 'A refresh rotates the pair, renews both lifetimes and keeps the data',
 'After a successful refresh the session answers to the new access token with the new refresh token stored, both lifetimes start again from the configured durations, every key and value it held is still there, and the old access token is unknown. A refresh that reports an error leaves every live session as it was.',
 ['inputs', 'histories', 'fault_sequences'], 'every session content, every storage failure point within a refresh, every provider',
 'Tests look at one refresh of an empty session and never at data, deadlines or a failing refresh.',
 [MEM, BOLT, BMD, RED, RMD],
 [('re-keying of the stored session', 'Refresh of each provider'), ('deadline renewal', MEM+', '+BMD+', '+RMD)])

prop('C05', 'Destroying by id or token removes exactly the sessions meant',
 'Destroying by user id removes every session of that id from every place it is recorded and no session of any other id; destroying by token removes exactly that session. Destroying something unknown succeeds without any change, and success is never reported while the removal failed.',
 ['inputs', 'histories'], 'every id and token, every number of sessions per id, every provider',
 'No test destroys a session at all.',
 [MEM, BOLT, RED],
 [('per-id index walk', 'Destroy of memory and bolt'), ('key pattern', 'Destroy of redis')],
 [('ids', 'tokens of each user id', MEM+', '+BOLT)])

prop('C06', 'All records of a session are added and removed together',
 'In the memory and bolt providers a session is at all times present either in all of its records (token table, per-user index, age order, and for bolt its data and the session count) or in none. Every operation and background task that adds, re-keys or removes a session updates all of them within one critical section, and nothing of a removed session (not even an empty per-user entry) remains.',
 ['histories', 'schedules'], 'every sequence of creations, refreshes, destructions, evictions and purges',
 'The tests only compare the size of one table after a few operations.',
 [MEM, BOLT, BMD],
 [('unsafePop, unsafeDestroyByToken, unsafeClear, Destroy, Refresh, Create', MEM), ('delete, deleteTokens, deleteIDS, appendIDS, putLRU, increment, decrement', BOLT+', '+BMD)],
 [('tokens/ids/lru', 'three records of a session', MEM), ('metadata/data/ids/lru/count', 'five records of a session', BOLT)])

prop('C07', 'The session limit is never exceeded and the oldest session makes room',
 'With a positive maximum size N the memory and bolt providers never hold more than N sessions after a successful creation, provided they held at most N before. Room is made only when the limit is reached, and the session evicted is the one created or refreshed longest ago. Without a positive limit nothing is evicted.',
 ['histories', 'configurations'], 'every N and every history of creations, refreshes and removals',
 'Tests use one size (3) and only creations of one user; interplay with refresh, replaced tokens and purges is untested.',
 [MEM, BOLT, BMD],
 [('limit test before insertion and eviction of the front of the age order', 'Create of memory and bolt'), ('monotonic, order-preserving sequence keys', BMD)])

prop('C08', 'Provider locking is balanced, sufficient and cannot deadlock',
 'Every operation and background task of every provider releases on every exit exactly the locks it took, never takes a lock it already holds, and never waits on a channel, timer or other goroutine while holding one. State shared between goroutines is read only under the lock and changed only under the exclusive lock. Notifying the background worker can always be abandoned when the provider closes.',
 ['schedules', 'histories'], 'every execution path of every operation and background task, every interleaving',
 'Tests are single-threaded, run without the race detector, and never take the early-exit paths.',
 [MEM, BOLT, RED, 'cryptoer/signing_method.go'],
 [('sync.RWMutex sections', 'all providers'), ('select on closed and the worker channel', 'Check/Get/Keys')],
 [('m', 'provider lock', 'all providers')])

prop('C09', 'Every bolt operation is one all-or-nothing transaction',
 'Each operation of the bolt provider does all its reads and writes within one transaction of the right kind, so its decision and its effect concern the same state and a failure at any step leaves the database as it was. A storage failure inside the transaction always aborts it and is reported; a refusal by token state is reported only if the transaction that decided it went through.',
 ['fault_sequences', 'crash_points', 'schedules'], 'every failing storage call within every operation',
 'No test makes a storage call fail.',
 [BOLT, BMD],
 [('db.Update / db.View closures returning the error', BOLT)])

prop('C10', 'No storage, coding or randomness failure is ever swallowed',
 'Whenever a storage call, an encoding or decoding, a signature or an id generation fails within a foreground operation of a manager, session or provider, the operation itself reports an error and does nothing further with the missing result; no operation reports success, or a token-state verdict, on the strength of a failed step. (Closing the database or client during Close is not such a step.)',
 ['fault_sequences', 'inputs'], 'every fallible step of every foreground operation',
 'Tests never inject a failure.',
 [MEM, BOLT, BMD, RED, 'manager.go', 'session.go', 'token.go', 'coder.go', 'cryptoer/encode.go', 'cryptoer/hmac.go'],
 [('explicit error returns', 'every file')])

prop('C11', 'Stored values never share memory with callers',
 'Changing a value slice after handing it to the memory or bolt provider, or changing a slice a provider returned, never changes what is stored or what another reader gets. Bytes returned by the bolt provider remain valid after the operation, later writes and Close.',
 ['histories', 'schedules'], 'every value and every later use of the slices involved',
 'Tests read a value once, immediately, and never modify or keep a slice.',
 [MEM, BOLT, BMD],
 [('SetCopy / CopyKeys', MEM), ('getData', BMD)])

prop('C12', 'A session handle reads its own writes and deletions',
 'Through one session handle, a read of a key after a successful Put returns the value last put and after a successful Delete of that token\'s key reports the key as missing, whatever was read or prepared before. A Put or Delete that failed changes nothing in what the handle returns. A key the store does not have is reported as missing, and values prepared in advance are those of their own keys.',
 ['histories', 'fault_sequences'], 'every sequence of Put, Get, Prepare and Delete on a handle, with any of them failing',
 'One short sequence without Delete, failure or multi-key Prepare misalignment is tested.',
 ['session.go'],
 [('local cache of values', 'Session.Put, Get, Prepare, Delete')],
 [('keys', 'local cache of the session handle', 'session.go')])

prop('C13', 'Typed reads depend only on the stored value and never panic',
 'Reading a key into a pointer decodes the stored bytes afresh into the destination given, every time: an earlier read of the same key through the same handle, into the same or another type, and anything the caller did to an earlier result have no influence. A destination that is not a pointer, or is a pointer to a pointer, is refused with its own error before anything is read, and no destination makes the read panic.',
 ['inputs', 'histories'], 'every sequence of destination types and every modification of earlier results',
 'The tests read an int twice, an int32 once, and modify a slice only by writing the value it already had.',
 ['session.go', 'coder.go'],
 [('cached decoded value reuse', 'Session.Get')])

prop('C14', 'The manager accepts only tokens signed by its own key',
 'Getting a session succeeds only if the token\'s signature verifies, under the manager\'s method and key, over everything that precedes it, and refreshing requires this of both tokens and that they name the same user, before the storage is asked anything. New tokens are signed by the same method and key for that same user, and the provider receives exactly the tokens presented and created.',
 ['inputs', 'configurations'], 'every token string, method and key',
 'The tests present only tokens just issued by the same manager.',
 ['manager.go', 'token.go'],
 [('Split + method.Verify before use', 'LocalManager.Get, LocalManager.Refresh'), ('CreateToken', 'token.go')])

prop('C15', 'Signatures verify exactly when they are the keyed hash of the content',
 'Verification succeeds only if the whole decoded signature equals, in constant time, the keyed hash of exactly the signed content under the given key and the method\'s own hash; signing produces that same hash in the encoding verification reads. A key of the wrong type, an undecodable signature or an unavailable hash is an error, never acceptance.',
 ['inputs'], 'every content, signature, key and method',
 'The test only verifies signatures it has just made.',
 ['cryptoer/hmac.go', 'cryptoer/encode.go'],
 [('HMAC recomputation and hmac.Equal', 'cryptoer/hmac.go')])

prop('C16', 'Tokens are unambiguous and malformed ones are rejected',
 'A token is the user part, the session part and the signature joined by one separator; taking it apart yields the parts it was made of whenever the user part has no separator, and a string with fewer than three parts is refused as invalid, by every provider operation before it touches any state. The manager derives the user part from the caller\'s id by one injective, separator-free encoding, used alike for creating and destroying, so different ids never share sessions.',
 ['inputs'], 'every id and every string presented as a token',
 'The tests use two plain ids and only well-formed tokens.',
 ['token.go', 'coder.go', 'manager.go', MEM, BOLT, RED, 'cryptoer/encode.go'],
 [('Split / Join', 'token.go'), ('encode', 'coder.go')])

prop('C17', 'Every advertised signing method works in every program and is found by name',
 'Each exported signing method uses the hash its name states, is registered under its own distinct name so that looking the name up returns it, and its hash implementation is linked into any program that imports the signing package, so signing with it never fails as unavailable.',
 ['programs', 'configurations'], 'every program importing the package and every exported method',
 'The test binary links all hashes through the test framework, so it passes although ordinary programs fail.',
 ['cryptoer/hmac.go', 'cryptoer/signing_method.go'],
 [('init registration', 'cryptoer/hmac.go'), ('imports', 'cryptoer')])

prop('C18', 'Background purging removes dead sessions, only those, until Close',
 'The background tasks of the memory and bolt providers remove a session only after establishing, in the same critical section, that its refresh lifetime has ended, and they do remove every dead session reported to them or found at the old end of the age order. They survive everything but Close: no token, failed purge or closing race makes them stop early, and Close makes each of them end. Every access that finds a dead session reports it for removal or removes it.',
 ['histories', 'schedules'], 'every sequence of reported tokens and timer events',
 'Tests see one purge by timer; a worker that removes nothing goes unnoticed.',
 [MEM, BOLT, RED],
 [('check / clear goroutines', 'all providers')])

prop('C19', 'The redis metadata field is invisible to and untouchable by users',
 'No key name a caller uses in creating, putting, getting, listing or deleting session data makes the redis provider read, overwrite, delete or list the field in which it keeps the session\'s own tokens and deadlines.',
 ['inputs', 'configurations'], 'every caller-supplied key and every configured field name',
 'The redis provider has no tests.',
 [RED],
 [('checkKey', RED)],
 [('metadataKey', 'reserved hash field', 'provider/redis/option.go')])

prop('C20', 'Redis keys are namespaced, expire with the session, and are matched exactly',
 'Every redis key the provider reads, writes, renames or deletes is the configured prefix followed by the whole access token, so providers with different prefixes and different tokens never meet. Every write that can create a key sets, in the same atomic batch, an expiry no earlier (to redis\'s resolution of one second) than the configured end of the session\'s refresh lifetime. Destroying by id selects keys by the literal prefix and id, whatever characters they contain.',
 ['inputs', 'configurations', 'fault_sequences'], 'every token, id, prefix and failure between commands',
 'The redis provider has no tests.',
 [RED, 'provider/redis/option.go'],
 [('keyName', RED), ('TxPipeline with ExpireAt', RED)])

prop('C21', 'Redis changes are based on the state they change',
 'A redis Put, Delete or Refresh takes effect only if the session it examined is still the one stored when the change is applied: a session concurrently destroyed, refreshed or expired is never brought back, and of two concurrent refreshes of one pair at most one succeeds.',
 ['schedules'], 'every interleaving of two operations on one token, from one or several processes',
 'The redis provider has no tests, and none of the tests is concurrent.',
 [RED],
 [('optimistic transaction on the session key', RED)])

prop('C22', 'Configured access lifetime never exceeds the refresh lifetime',
 'Whatever lifetime options are given, in whatever order, the resulting access lifetime is at most the refresh lifetime, the option given last has exactly its requested value, and without options the defaults satisfy the same. This holds for all providers, and options of one provider instance never influence another.',
 ['configurations'], 'every sequence of lifetime options and durations',
 'Tests always give both options in one order with consistent values.',
 ['provider_option.go', 'provider/bolt/option.go', 'provider/redis/option.go'],
 [('clamping in the two lifetime options', 'option files')])

prop('C23', 'What is written is read back by the matching decoder',
 'Each value coder decodes with the format it encodes with, and its failures are reported. Each provider decodes session metadata with the same coder, and the same field layout, it encodes it with; every metadata field it later relies on is part of the stored form; and bolt\'s numbers are written and read in one fixed-width big-endian form, so that the stored age order is numeric order.',
 ['inputs', 'histories'], 'every value and every metadata content, across restarts',
 'Tests round-trip an int and an int slice through one coder and never reopen a database.',
 ['coder.go', BMD, BOLT, RED, RMD],
 [('Encode/Decode pairs', 'coder.go'), ('getMetadata/putMetadata, toBytes/toUint64', BMD)])

prop('C24', 'Providers close exactly the resources they opened',
 'A provider that opened its database or client itself closes it on Close and on a failed construction; a database or client supplied by the caller stays open in both cases. Construction fails with an error and without a provider when the storage cannot be prepared, and leaves no background task behind.',
 ['configurations', 'fault_sequences'], 'every combination of supplied or own storage and every construction failure',
 'Tests only open their own database file successfully.',
 [BOLT, RED, 'provider/bolt/option.go', 'provider/redis/option.go'],
 [('ownership test on the db option', 'New and Close')])

prop('C25', 'New sessions get exactly the configured lifetimes and contents',
 'A created session is stored under its access token with the given refresh token, the user id taken from the access token, exactly the given key/value pairs, and, for a positive refresh duration, access and refresh lifetimes that run from the moment of creation for the respective configured durations. Creating under an access token already stored replaces that session completely. Every provider does so, and creation reports success only when all of it has been stored.',
 ['inputs', 'configurations', 'histories'], 'every token pair, pair list and duration configuration, on every provider',
 'Tests create sessions mostly without data and only observe coarse expiry.',
 [MEM, BOLT, BMD, RED, RMD],
 [('newTokenValue / newMetadata', MEM+', '+BMD+', '+RMD), ('Create', 'each provider')])

prop('C26', 'Manager and session calls reach the store unaltered and answer for it',
 'Creating a session through the manager encodes each given value with the configured coder under its own key, signs both tokens for the given id, stores them with the configured provider, and returns a session only if storing succeeded, whose token is the stored access token. Session operations act on the session\'s own token (Delete on the token it is given), pass every key and value on exactly once and in order, and report the store\'s own verdict.',
 ['inputs', 'fault_sequences', 'configurations'], 'every id, pair list, provider, coder and failure',
 'Tests use one provider and coder without failures.',
 ['manager.go', 'session.go', 'option.go'],
 [('LocalManager methods', 'manager.go'), ('Session methods', 'session.go')])

prop('C27', 'Put and Delete change exactly the keys named',
 'A successful Put stores every given pair under its own key, later pairs of the same key winning, and leaves other keys alone; a successful Delete removes every given key and no other; Get answers each requested key, in order, with its own stored value or its absence; Keys lists exactly the stored keys. An empty request succeeds for a live token without changing anything.',
 ['inputs', 'histories'], 'every list of keys and pairs, every session content, every provider',
 'Tests put one key and get one key.',
 [MEM, BOLT, BMD, RED],
 [('SetCopy/CopyKeys loops', MEM), ('putData/getData/getKeys/deleteKeys', BMD), ('HSet/HMGet/HKeys/HDel', RED)])

prop('N01', 'Session ids never repeat and cannot be guessed',
 'No two tokens ever created, in any process or machine, carry the same session part, and an observer of issued tokens cannot predict later ones.',
 ['histories', 'programs'], 'every set of processes creating tokens',
 'A sample of ten thousand ids in one process says nothing about collisions across machines or predictability.',
 ['token.go', 'coder.go', 'cryptoer/encode.go'],
 [('uuid.NewUUID', 'coder.go, cryptoer/encode.go')])
prop('N02', 'Committed bolt sessions survive a crash',
 'A session whose creation, change or removal was reported as successful is found in that state when the database is reopened after a crash at any point.',
 ['crash_points'], 'every crash point during and after an operation',
 'No test reopens a database after a crash.',
 [BOLT], [('bolt transaction commit', 'github.com/boltdb/bolt')])
prop('N03', 'Dead sessions disappear within a bounded time',
 'A session whose refresh lifetime has ended is gone from storage within the configured purge interval plus a bounded delay, whatever the load.',
 ['schedules', 'histories'], 'every load and scheduling',
 'Tests wait a fixed time on an idle machine.',
 [MEM, BOLT], [('purge timer', 'clear goroutines')])
prop('N04', 'Any value round-trips through every coder',
 'A value put with a coder and read back into its own type is equal to the value put.',
 ['inputs'], 'every Go value',
 'Two values of one coder are tested.',
 ['coder.go', 'session.go'], [('gob, json, xml', 'standard library')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
for p in P: assert len(p['title']) <= 80, p['id']
print(len(P))
