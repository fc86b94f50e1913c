import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
HOOK="runtime/kv: VerifOnOpen (build tag verif) hands the monitor every database the node opens, so whole-state snapshots can be taken between ABCI calls"

p("C01","Coins are conserved and balances stay canonical",
 "After genesis, no sequence of blocks and transactions - accepted, rejected or failing half way - changes the per-denomination sum of all stored balances: transfers and fee payments only move coins between addresses. Every stored balance is at all times a canonical coin list (strictly positive integer amounts, valid denominations, sorted, no duplicate denomination), and none is ever negative. A transfer debits the sender and credits the receiver by exactly the (normalised) amount named in the message, also when sender and receiver are the same or the receiver is new, and a transfer of more than the sender owns is refused.",
 ["inputs","histories"],"every sequence of signed transactions with arbitrary coin lists (zero, huge, malformed, decimal, duplicate or unsorted denominations), senders and receivers",
 "TestSendCoins makes one transfer of one denomination between two fixed names; no test sums balances over a history, sends to oneself, to a new account, malformed amounts or fails a transfer part way.",
 ["x/bank/handler.go","core/coin/v1alpha1/coin.go","x/distribution/extensions.go"],
 [("SendCoinsHandler debits then credits through MsgSetBalance","x/bank/handler.go"),("SafeAdd/SafeSub normalise and refuse negatives","core/coin/v1alpha1/coin.go")],
 [("Balance objects","coins per address","x/bank/v1alpha1/bank.proto")],["state snapshot after every ABCI call"],HOOK)
p("C02","Only the owner's signature moves an account's coins",
 "The balance of an address decreases during a transaction only if that address is one of the transaction's verified signers, either as the sender of a transfer contained in it or as its fee payer. A transaction that names a sender or a fee payer who did not sign it is refused by both CheckTx and DeliverTx without changing any state.",
 ["inputs","histories"],"every transaction of an authenticated attacker: arbitrary sender, receiver, amount, fee payer, any mix of signers and messages",
 "No existing test delivers a transfer on behalf of an address other than the signer, and none sets a fee payer.",
 ["x/bank/module.go","x/bank/handler.go","x/authn/tx/decoder.go","x/distribution/extensions.go"],
 [("fee payer resolution in the transaction decoder","x/authn/tx/decoder.go"),("bank transaction admission","x/bank/module.go")],None,["balances before and after DeliverTx; CheckTx and DeliverTx codes"],HOOK)
p("C03","Transaction authentication is sound and complete",
 "A transaction is accepted for execution only if every one of its signer entries carries a valid low-S 64-byte secp256k1 signature, by the key whose hash is the signer's address, over exactly the transmitted body bytes and auth-info bytes bound to this chain's id and to the signer's stored account number. Changing any byte of body, auth info, chain id, account number, key or signature, dropping, adding or reordering signatures makes both CheckTx and DeliverTx refuse it. Conversely a correctly signed transaction of existing, funded accounts - also of an account that was created by receiving coins and has never signed before - is accepted.",
 ["inputs","histories"],"every transaction, key set, mutation of a valid transaction and combination of one to several signers",
 "TestSigVerification and TestAuthenticator send one fixed, valid transaction (the latter only logs the response): no test presents a wrong signature, chain id, account number, key or multi-signer transaction.",
 ["x/authn/extensions.go","x/authn/tx/decoder.go","x/authn/tx/tx.go","x/authn/crypto/crypto.go","x/authn/crypto/secp256k1/secp256k1_nocgo.go"],
 [("sigVerifier admission","x/authn/extensions.go"),("Decoder builds signers from keys","x/authn/tx/decoder.go"),("runTxAdmissionChain","runtime/runtime.go")],None,["CheckTx and DeliverTx response codes, state"],HOOK)
p("C04","Every signed transaction executes at most once, in sequence",
 "A signer's stored sequence starts at zero, increases by exactly one with each transaction of its that passes authentication in DeliverTx (whether its messages then succeed or fail, and however many messages it holds), and changes in no other way. A transaction passes only if each signer entry names that signer's current sequence, so no transaction's bytes are ever accepted twice, transactions cannot be reordered or skipped, and account number and address never change. Its first authenticated transaction records the signer's public key in its account, which never changes afterwards either.",
 ["inputs","histories"],"all interleavings of fresh, replayed, reordered, gapped and failing transactions of several accounts over many blocks",
 "Tests deliver each transaction once; sequence handling over a history, replays and gaps are never exercised.",
 ["x/authn/extensions.go","x/authn/v1alpha1/client.go","runtime/abci.go"],
 [("sigVerifier compares sequences","x/authn/extensions.go"),("increaseSequence post-authentication handler","x/authn/extensions.go")],
 [("Account.sequence","next sequence","x/authn/v1alpha1/authn.proto")],["Account objects after every ABCI call"],HOOK)
p("C05","CheckTx, queries and rejected transactions leave no trace",
 "CheckTx (new or recheck), Query and Info never change any stored byte, whatever they are given. A DeliverTx that is refused before or during authentication (undecodable, unknown account, bad signature, sequence, fee, memo, timeout) changes no account, balance, role, post or other application object, and CheckTx refuses what DeliverTx's authentication would refuse in the same state.",
 ["inputs","histories"],"every byte string and every near-valid transaction offered to CheckTx, Query and DeliverTx at any point of a history",
 "No test compares state before and after CheckTx, Query or a rejected DeliverTx.",
 ["runtime/abci.go","runtime/runtime.go","runtime/query.go"],
 [("admission chains only read","runtime/abci.go"),("Querier only reads","runtime/query.go")],None,["full key-value snapshot before and after each call"],HOOK)
p("C06","Role-based access control is enforced exactly",
 "Once the chain is initialised, a create, update, delete or state transition requested by a set of identities is executed if and only if every identity is bound to an existing role and at least one of these roles lists that exact resource for that exact verb; otherwise it is refused as unauthorized and changes nothing. This holds for transactions, for modules and for modules impersonating others, for roles and bindings created at run time, and it takes effect immediately; before initialisation nothing is restricted.",
 ["inputs","histories","configurations"],"every combination of identities, roles, bindings, verbs and resources, including roles created during the run",
 "TestRBAC tries one unauthorized identity and one authorized one for two transitions.",
 ["core/rbac/authorizer.go","runtime/runtime.go","runtime/client.go","core/rbac/v1alpha1/rbac.go"],
 [("Authorizer.Authorize","core/rbac/authorizer.go"),("Runtime.authorized called by Create/Update/Delete/deliver","runtime/runtime.go"),("ModuleClient impersonation","runtime/client.go")],None,["result of each client call and resulting state"],HOOK)
p("C07","State transition pipeline: order, completeness, stop on first error",
 "Delivering a state transition runs all admission handlers, then authorization, then all pre-execution handlers, then the single execution handler, then all post-execution handlers, each in registration order and exactly once, with the caller's identities and the transition itself; the first stage that fails ends the pipeline with an error and no later handler runs. Transactions run the decoder, then all transaction admission handlers, then all post-authentication handlers, then each message's pipeline in message order, and stop at the first failure; CheckTx runs only the decoder, transaction admission and message admission. Admission of every message is enforced in DeliverTx as well as in CheckTx, and an unknown transition is refused.",
 ["inputs","programs","configurations"],"every set of modules registering any number of handlers of each kind, with any of them failing, for any message sequence",
 "runtime tests use modules with a single handler of one kind; no test has failing handlers, several handlers per stage, pre-execution handlers or multi-message transactions.",
 ["runtime/runtime.go","runtime/router.go","runtime/abci.go","runtime/builder.go","runtime/module/builder.go"],
 [("Runtime.deliver","runtime/runtime.go"),("Router handler registries","runtime/router.go"),("ABCIApplication.DeliverTx/CheckTx","runtime/abci.go")],None,["event log written by probe handlers"])
p("C08","The object store behaves as a map from type and primary key",
 "For any history of create, get, update and delete calls over any registered object types, every call returns what a map from (type, primary key) to object would: create fails if and only if the key exists, get returns exactly the last written object, update and delete fail if and only if the key is absent, failed calls change nothing, and types never see each other's objects. An object with an empty primary key or an unregistered type is refused with an error; singletons have exactly one instance.",
 ["inputs","histories"],"every history over every supported primary key kind (string, bytes, bool, int32, int64, uint32, uint64, singleton) with adversarial keys: empty, long, binary, prefixes of each other, containing separators",
 "Tests create and read back one or two objects with short string keys.",
 ["runtime/orm/store.go","runtime/orm/objects/store.go","runtime/orm/schema/schema.go"],
 [("orm.Store","runtime/orm/store.go"),("objects.Store","runtime/orm/objects/store.go")],None,["return values of each call, full enumeration at the end"])
p("C09","Secondary-index listings are exact at all times",
 "Listing an object type by one indexed field value (typed or in string form) returns exactly the set of currently stored objects whose field has that value - each once, none missing, none stale, none of another value, field or type - after any history of creates, updates that change or keep indexed fields, and deletes. A value nothing matches yields no objects, a field that is not indexed and a value of the wrong type yield an error, and deleting or updating an object never disturbs the listing of others. A listing which was closed, or which was refused or matched nothing, leaves no transaction of the store open.",
 ["inputs","histories"],"every history over types with several indexed fields of every supported kind with adversarial values (prefixes of each other, empty, long, negative numbers)",
 "The index tests index one object, list it once and clear it once.",
 ["runtime/orm/indexes/store.go","runtime/orm/indexes/list.go","runtime/orm/indexes/types.go","runtime/orm/store.go","runtime/orm/iterator.go"],
 [("index key layout with length prefixes","runtime/orm/indexes/types.go"),("ClearIndexes/Index on update","runtime/orm/store.go")],None,["iterator contents after each step"])
p("C10","Key encoding is injective and agrees with lookup identifiers",
 "For every supported field kind, two values encode to the same key bytes only if they are equal; the typed, the textual and the in-object form of the same value encode identically, and a value or text of another kind, out of range or malformed is refused. A string- or bytes-keyed object, whatever the length or content of its key, is found under the identifier made of exactly those bytes.",
 ["inputs"],"every pair of values of every supported kind, every textual form, keys of any length",
 "Encoder tests cover short strings and a handful of numbers.",
 ["pkg/protoutils/kindencoder/kindencoder.go","runtime/orm/schema/schema.go","runtime/orm/schema/indexer.go"],
 [("KindEncoder implementations","pkg/protoutils/kindencoder/kindencoder.go"),("Schema.EncodePrimaryKey(String)","runtime/orm/schema/schema.go")],None,["encoded bytes"])
p("C11","The key-value store is an ordered map with faithful iteration",
 "For any history, get, has, set and delete on the key-value store return what an in-memory ordered map would, delete reports whether the key existed, and returned values are unaffected by later writes. Prefix iteration visits exactly the keys with that prefix in ascending order with the prefix stripped, range iteration visits exactly the keys from start to end, both included, in ascending order, both with their current values, and an open iterator keeps seeing the state as of its creation; once closed it leaves no transaction of the store open.",
 ["inputs","histories"],"every history over adversarial keys and values, with iterators open across writes",
 "The badger test writes three keys and reads them back through one prefix.",
 ["runtime/kv/badger.go","runtime/kv/kv.go"],
 [("Badger wrapper","runtime/kv/badger.go")],None,["return values and iterator contents"])
p("C12","Replicas executing the same blocks agree",
 "Two nodes that execute the same chain of blocks from the same genesis return the same consensus-relevant results (codes, data, gas, validator updates, app hash) and hold byte-identical state after every call, regardless of how many CheckTx, Query or API reads each serves in between, of process restarts by replay, and of map iteration or goroutine scheduling.",
 ["histories","schedules"],"every block history; replicas differ in interleaved non-consensus calls, in process and in scheduling",
 "Each test runs a single instance; determinism between instances is never compared.",
 ["runtime/abci.go","runtime/builder.go","runtime/orm/objects/store.go","runtime/module/descriptor.go","core/rbac/rbac_applier.go"],
 [("deterministic protobuf marshalling","runtime/orm/objects/store.go"),("ordered module descriptors","runtime/module/descriptor.go")],None,["state digests and responses of several replicas and of a separate process"],HOOK)
p("C13","No transaction or query can crash the node",
 "Whatever bytes arrive through CheckTx, DeliverTx or Query, and whatever messages an authenticated account signs, the node answers with a response - a non-zero code if it refuses them - and remains able to process further transactions, queries and blocks; no such input makes it panic. With no transaction decoder configured, every transaction is refused instead.",
 ["inputs","histories"],"every byte string, every structure-aware mutation of a valid transaction, every field value of every externally deliverable message, every query path and payload",
 "Tests send well-formed inputs only; no fuzzing or hostile input exists.",
 ["runtime/abci.go","runtime/runtime.go","runtime/query.go","x/authn/tx/decoder.go","x/authn/tx/decode_unknowns.go","core/coin/v1alpha1/coin.go"],
 [("decoder validation","x/authn/tx/decoder.go"),("store error conversion","runtime/runtime.go"),("Querier.Handle error responses","runtime/query.go")],None,["recovered panics and a liveness probe after each input"],HOOK)
p("C14","Each authenticated transaction pays its fee exactly once",
 "A transaction that passes authentication in DeliverTx moves exactly its declared fee from its fee payer (the first signer unless another signer is named) to the fee collector, once, before its messages run and whether or not they succeed. A transaction whose payer cannot cover the fee, or that declares no fee or a malformed one, is refused by CheckTx and DeliverTx without charging anyone; a transaction that does not reach authentication is never charged.",
 ["inputs","histories"],"every fee list, payer choice, balance and message outcome over long histories",
 "TestAuthenticator sends one transaction with one fee and checks nothing about balances.",
 ["x/distribution/extensions.go","x/distribution/module.go","x/authn/tx/decoder.go","runtime/runtime.go"],
 [("FeeChecker admission","x/distribution/extensions.go"),("FeeDeduction post-authentication handler","x/distribution/extensions.go")],None,["balance deltas of payer and fee_collector per DeliverTx"],HOOK)
p("C15","Transaction form and limits are enforced at their exact boundaries",
 "A transaction is refused if it has no message, signer, signature or fee, unequal numbers of signatures and signers, a signer without key or sign mode, a sign mode other than direct single, a key of unsupported type or wrong size, unknown fields in the envelope, body or auth info, a message that is not a known state transition, a memo of more bytes than the configured maximum, more signers than the configured maximum, a signer that has no account, or a non-zero timeout height below the current block. At each limit's exact boundary, and when a field is merely unused, an otherwise valid transaction is accepted.",
 ["inputs","configurations"],"every violation of each rule on otherwise validly signed transactions, and every boundary value of every limit and parameter setting",
 "No test presents an ill-formed transaction, a memo or timeout at its limit, or changed parameters.",
 ["x/authn/tx/decoder.go","x/authn/tx/decode_unknowns.go","x/authn/extensions.go"],
 [("Decoder.Decode","x/authn/tx/decoder.go"),("timeout, memo and signature count admission","x/authn/extensions.go")],None,["CheckTx and DeliverTx codes"],HOOK)
p("C16","Accounts are created once, with unique consecutive numbers",
 "Over any history the stored accounts carry pairwise distinct account numbers that are exactly 0,1,2,... in creation order, the next-number counter equals the number of accounts, and every account has the external-account role binding and a non-empty address. Creating an account always starts it at sequence zero with the next number regardless of the number and sequence the message suggests, creating an existing one is refused without consuming a number, and receiving coins creates the account exactly once.",
 ["inputs","histories"],"every interleaving of explicit account creation, first-time coin receipt, duplicates and failures",
 "One unit test creates one account.",
 ["x/authn/ctrl_state_transition.go","x/authn/ctrl_admission.go","x/bank/handler.go"],
 [("CreateAccountHandler","x/authn/ctrl_state_transition.go"),("createAccountIfNotExist","x/bank/handler.go")],
 [("CurrentAccountNumber","next account number","x/authn/v1alpha1/authn.proto")],["Account, CurrentAccountNumber and RoleBinding objects after every call"],HOOK)
p("C17","Consensus information is exposed to modules faithfully",
 "While a block or transaction is processed, modules read exactly the chain id given at initialisation, the header and hash of the block begun last, its height as the current block, the height of the block being ended and, while a chain is initialised and a block begun or ended, that lifecycle stage. Validator updates set during end-block or chain initialisation are returned to the consensus engine unchanged in content and order, and setting them in any other stage is refused; no external account can write any of this information.",
 ["inputs","histories"],"every sequence of blocks with arbitrary headers, evidence, votes, transactions and validator updates",
 "One test sets the chain id; headers, stages and validator updates are not checked over a lifecycle.",
 ["core/abci/handlers.go","runtime/abci.go","core/abci/genesis.go","core/abci/tendermint"],
 [("ABCI state handlers","core/abci/handlers.go"),("legacy conversion of ABCI types","core/abci/tendermint")],None,["abci state objects read by a probe module at each stage; EndBlock response"],HOOK)
p("C18","The HTTP API serves exactly the stored state",
 "For every registered object type, GET of an object's path returns its current stored value as JSON, 404 if absent and 400 if the key does not parse; GET of its list path with one field selection returns exactly the matching stored objects; singletons are served at their own path. This holds whatever the case of the key field's name and whatever the key's content, errors never terminate the server, no HTTP request changes state or leaves a transaction of the store open, and the served specification names every path.",
 ["inputs","histories","configurations"],"every object type, key kind, key content, field selection and malformed request",
 "TestServer fetches one object with a lower-case key and one list.",
 ["core/apiserver/router/server.go","core/apiserver/router/types.go","core/apiserver/router/openapi.go","core/apiserver/module.go"],
 [("newGetHandler/newListHandler/newSingletonGetHandler","core/apiserver/router/server.go")],None,["HTTP status and body against the store"])
p("C19","Concurrent readers are race-free and see only written objects",
 "While blocks are executed, any number of concurrent API, service and ABCI query readers run free of data races, never crash, and every object read equals a value actually written for that key which was current at some moment during the read (undoing a failed transaction writes the former values again), absence included; successive reads of one object by one reader never go back to an older version. Starting and stopping services concurrently with requests is equally race-free.",
 ["schedules","histories"],"every interleaving of block execution with concurrent HTTP, service-client and ABCI reads",
 "No test runs anything concurrently and the suite is not run under the race detector.",
 ["runtime/client/orm.go","runtime/kv/badger.go","runtime/services.go","core/apiserver/module.go","runtime/orm/schema/registry.go"],
 [("in-memory badger transactions per read","runtime/kv/badger.go"),("read-only client handed to services","runtime/client/orm.go")],None,["race detector reports; per-key version history seen by each reader"],HOOK)
p("C20","Signature primitives agree with an independent implementation",
 "secp256k1 and ECDSA keys produce signatures that verify under an independent implementation, and verification accepts exactly the signatures that implementation accepts in canonical 64-byte low-S form under 33-byte compressed keys (secp256k1) or strict DER form (NIST curve); high-S (secp256k1), wrong-length, zero, out-of-range and bit-flipped signatures, keys and messages are refused without a panic. Addresses are the RIPEMD160(SHA256(key)) hash (respectively the ADR-28 hash), key serialisation round-trips, and secret-derived keys are deterministic and valid.",
 ["inputs"],"every key, message and signature encoding, valid or mutated",
 "Unit tests use a few random keys and one mutation, and compare against fixed vectors.",
 ["x/authn/crypto/secp256k1/secp256k1.go","x/authn/crypto/secp256k1/secp256k1_nocgo.go","x/authn/crypto/internal/ecdsa/pubkey.go","x/authn/crypto/internal/ecdsa/privkey.go"],
 [("Sign/VerifySignature","x/authn/crypto/secp256k1/secp256k1_nocgo.go")],None,["verdicts and bytes against math/big and crypto/ecdsa references"])
p("C21","Module composition is complete and conflict-free",
 "Building an application installs every handler, object, service and dependency every module declares: each declared transition is executable, each declared object storable, each handler is invoked for its transition only, and services are started once after genesis with a client that can read all state and write none. Genesis runs each module's part once, in the given order, up to the first that fails; an import hands each module exactly its own section; stopping a service group stops every service even when one of them fails. Building fails with an error - never silently overriding - if a module has an empty name, two modules register the same transition or object, a handler targets or a module needs an unknown transition, an object's schema is invalid, or two modules bring an authorizer.",
 ["programs","configurations"],"every set and order of modules with any mixture of valid and conflicting declarations",
 "Builder tests assemble one or two fixed modules.",
 ["runtime/builder.go","runtime/router.go","runtime/module/builder.go","runtime/services.go","runtime/client/orm.go","runtime/orm/schema/schema.go"],
 [("Builder.Build and install steps","runtime/builder.go"),("ServiceGroup.Start","runtime/services.go")],None,["Build result, probe invocations, client call results"])
p("C22","Coin arithmetic is exact integer arithmetic on coin multisets",
 "Adding two coin lists yields, for each denomination, exactly the sum, and subtracting yields exactly the difference or an error if any would be negative, independent of input order; results are canonical (sorted, positive, no zero or duplicate entries) and inputs are not modified. Malformed, negative or duplicate input is an error, never a panic or a wrong number, for amounts of any size.",
 ["inputs"],"every pair of coin lists including huge, zero, negative, duplicate, unsorted and malformed entries",
 "There is no direct test of coin arithmetic; bank tests use one small amount.",
 ["core/coin/v1alpha1/coin.go"],
 [("SafeAdd","core/coin/v1alpha1/coin.go"),("SafeSub","core/coin/v1alpha1/coin.go")],None,["results against arbitrary-precision reference"])
p("C23","Node queries return exactly what is stored",
 "A get query for (group, kind, id) answers the JSON of the currently stored object with that exact identifier - whatever characters the identifier contains - or a non-zero code if there is none or the path is malformed, and never another object. The resource query lists exactly the registered groups and object kinds, the remote client returns the same data and turns non-zero codes into errors, and an unknown verb is refused.",
 ["inputs","histories"],"every stored object, every identifier and path, before, during and after any history",
 "TestQuerier fetches one object and lists resources once.",
 ["runtime/query.go","pkg/client/client.go","runtime/orm/schema/registry.go"],
 [("Querier.Handle","runtime/query.go"),("RPC client","pkg/client/client.go")],None,["Query responses against state snapshot"],HOOK)
p("C24","Genesis grants exactly the declared permissions",
 "After genesis each module is bound to its own role, which allows exactly to deliver the transitions it owns or declared as needed and to create, update, delete, get and list the objects it owns; the external-account role allows exactly to deliver those transitions whose definition marks them external. No other role, binding or permission exists, so an external account can never deliver an internal transition nor write an object directly, and a second genesis is refused without changing anything.",
 ["programs","configurations"],"every set and order of modules, every (identity, verb, resource) combination",
 "TestInitGenesisRoleCreator checks a single module's role.",
 ["core/rbac/rbac_applier.go","core/rbac/v1alpha1/rbac.go","runtime/runtime.go","runtime/module/descriptor.go"],
 [("role creation from module descriptors","core/rbac/rbac_applier.go"),("InitGenesis","runtime/runtime.go")],None,["Role and RoleBinding objects; full permission matrix by attempting every operation"],HOOK)
p("C25","A failing transaction leaves no message effects behind",
 "If DeliverTx returns a non-zero code because a message failed, the only lasting effects are those of authentication: the fee payment, the signers' sequence increments and recorded public keys; nothing any of its messages wrote before the failure remains. A failing transaction never affects the outcome of later ones otherwise.",
 ["inputs","histories","fault_sequences"],"every transaction whose k-th message fails, at any point inside the message, for any k",
 "No test delivers a transaction with a failing message.",
 ["runtime/abci.go","x/bank/handler.go","x/authn/ctrl_state_transition.go"],
 [("DeliverTx message loop (TODO cache the store)","runtime/abci.go")],None,["state after a failing DeliverTx against state with authentication effects only"],HOOK)
p("C26","Generated client code is faithful to its schema",
 "For any schema with top-level state objects and transitions whose keys are of kinds the store can encode, whose generated names do not collide and which is the only annotated file of its Go package, the code generator terminates, is deterministic, emits code that compiles, and gives each object and transition the group, kind, primary and secondary keys, singleton flag and client methods its definition declares; regenerating the repository's own schemas reproduces the committed code. A message declared as both object and transition, or an object with neither a usable primary key nor the singleton flag, is refused. Generated clients read, write, list and deliver exactly the object or transition they are named after.",
 ["programs","inputs"],"every valid proto schema using the framework's annotations, and every generated client in the repository",
 "No test runs the generator or compares its output.",
 ["pkg/modulecodegen/codegen.go","pkg/modulecodegen/schema.go","pkg/modulecodegen/api_definition.go","cmd/protoc-gen-starport/main.go"],
 [("code generation from descriptors","pkg/modulecodegen/codegen.go")],None,["generated text, compiled behaviour"])
p("C27","Schemas, list types and dependency sets are derived correctly",
 "An object schema is accepted if and only if every field of the object's type is of a supported kind, the type holds no map field at any depth, and the schema is a singleton without keys or names an existing singular primary key field and existing, distinct secondary key fields of encodable kinds (fields are named as in JSON; repeated secondary keys are left open, as are unsupported kinds inside nested messages); the derived list type round-trips any list of objects through binary and JSON unchanged without touching the global registry. A file's computed dependency list contains each transitive import exactly once and before its dependents, so that registering the files in that order always succeeds.",
 ["inputs","programs"],"every message descriptor (nested, recursive, repeated, maps, all field kinds), schema definition and import graph",
 "Tests cover one or two hand-written descriptors and definitions.",
 ["runtime/orm/schema/schema.go","runtime/orm/schema/registry.go","pkg/protoutils/desc/desc.go","pkg/protoutils/forge/list.go","core/schema/schema.go"],
 [("parseObjectSchema","runtime/orm/schema/schema.go"),("HasMap/Dependencies","pkg/protoutils/desc/desc.go"),("forge.List","pkg/protoutils/forge/list.go")],None,["accept/reject decisions and round-trips"])
p("C28","The native secp256k1 backend is memory safe and agrees with the Go one",
 "Built with the native library backend, signing, verification, recovery and point multiplication execute without any memory error or undefined behaviour on every input, valid or hostile, and give the same verdicts, addresses and accepted signatures as the pure-Go backend.",
 ["inputs"],"every key, message and signature, valid, mutated or of wrong length",
 "The native backend's tests are behind a build tag that the default run does not set, and no sanitizer is used.",
 ["x/authn/crypto/secp256k1/secp256k1_cgo.go","x/authn/crypto/secp256k1/internal/secp256k1/secp256.go","x/authn/crypto/secp256k1/internal/secp256k1/curve.go"],
 [("cgo bindings","x/authn/crypto/secp256k1/internal/secp256k1/secp256.go")],None,["AddressSanitizer and UBSan reports; verdict comparison"])
p("C29","Roles and bindings stay well-formed",
 "At every point of a history each role binding refers to an existing role, each subject has at most one binding, and each role has a non-empty unique id and lists only object types and transitions known to the application. Creating a role or binding that would break this is refused with no effect, whichever caller asks, one that would not is accepted and stored exactly as requested, and existing roles and bindings are never altered by later requests.",
 ["inputs","histories"],"every sequence of role creation and binding requests with existing, missing, empty and unknown names",
 "Unit tests create one role and bind it twice.",
 ["core/rbac/ctrl_create_role.go","core/rbac/ctrl_bind.go","core/rbac/module.go"],
 [("CreateRoleAdmissionHandler","core/rbac/ctrl_create_role.go"),("BindRoleAdmission","core/rbac/ctrl_bind.go")],None,["Role and RoleBinding objects after each request"],HOOK)
p("C30","Stock Cosmos SDK transactions are understood identically",
 "A bank transfer built, encoded and signed by an unmodified Cosmos SDK client is accepted exactly when the equivalent native transaction would be, with the same signers, fee, payer, amounts, memo and effect on balances. No other Cosmos SDK message type is accepted as, or silently interpreted as, a native message.",
 ["inputs"],"every SDK transfer transaction: amounts, fees, memo, timeout, one or several signers, fee payer, granter, multisignature and sign modes",
 "testapp's SDK transaction test needs a running node and is excluded; TestAuthenticator decodes one such transaction.",
 ["x/authn/tx/decoder.go","x/authn/tx/decode_unknowns.go","x/authn/crypto/crypto.go"],
 [("type URL aliases","x/authn/tx/decode_unknowns.go"),("public key alias","x/authn/crypto/crypto.go")],None,["decoded transaction and resulting balances against the SDK's own decoding"],HOOK)
p("C31","The served API specification describes what is served",
 "The OpenAPI document served by the API server is a valid description of the API it comes with: every schema it refers to is defined in it, operation identifiers are unique, every parameter in a path is declared, and for every object type and every stored value the JSON answered on an object, singleton or list path has exactly the fields and kinds of value its declared response schema says, for message types of any shape: nested, shared between files, recursive, with lists and times.",
 ["inputs"],"every set of state object types (message shapes, several objects in one file, nested and recursive message types, imports) and every stored value",
 "One unit test generates the document for one message and checks nothing in it.",
 ["pkg/protoutils/oas3schema/oas3schema.go","pkg/protoutils/forge/list.go","core/apiserver/router/openapi.go","core/apiserver/router/server.go"],
 [("OpenAPIv3Generator","pkg/protoutils/oas3schema/oas3schema.go"),("list type","pkg/protoutils/forge/list.go"),("operations","core/apiserver/router/openapi.go")],None,["/spec document; JSON answers of the HTTP handlers"],HOOK)
p("C32","A module's client honours its options and failures name their class",
 "An update made through a module's client that asks to create what is absent stores the object whether or not it existed, given the permissions both need; a get or list at a height is refused rather than answered from another height; a delivery made on behalf of users carries the module's own identity and exactly those users. Every failure of a client call or delivery is of exactly one class - not found, already exists, bad request, unauthorized - the one that describes it, also through nested deliveries and wrapping; failures of transaction admission and authentication are bad requests; and the response code of a refused transaction is that of its class (404, 409, 400, 412, otherwise 1), never zero, while an accepted one has code zero.",
 ["inputs","histories"],"every sequence of client calls and deliveries by any module with any options, at any nesting depth, and every way a transaction can be refused",
 "Unit tests check one or two failures by their text or by being non-nil.",
 ["runtime/client.go","runtime/runtime.go","runtime/errors/errors.go","runtime/abci.go"],
 [("ModuleClient","runtime/client.go"),("convertStoreError and deliver","runtime/runtime.go"),("error classes","runtime/errors/errors.go"),("response codes","runtime/abci.go")],None,["errors returned to handlers; identities seen by handlers; response codes"],HOOK)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
