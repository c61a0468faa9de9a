#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed iff it has a check registered (BUILT)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def p(id, title, stmt, over, text, why, files, mech, level=None, technique=None, note=None, na=None, **kw):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na, **kw))

SCHED = "stateless model checking of the real code: every interleaving up to a preemption bound under a controlled scheduler"
SEQ = "explicit enumeration of all operation sequences on the real code, compared step by step with a reference model"
INP = "exhaustive enumeration of a bounded input space on the real code against an independent reference"

p("C01", "Each RPC call gets exactly its own response",
  "When any number of goroutines issue calls over one client connection, each call returns exactly once, with the result or error of the response that carries that call's own request id, in whatever order the responses arrive and however the goroutines interleave. No two outstanding calls share a request id. Responses nobody waits for are ignored without disturbing any call.",
  ["schedules", "inputs"], "all interleavings of the callers and the reader (bounded preemptions) x all response orders, including unsolicited and duplicate responses",
  "the existing tests run one schedule chosen by the Go runtime and have no out-of-order or spurious responses",
  ["client.go", "seth.go"], [("request registration and response dispatch", "client.go"), ("request id allocation", "client.go Do")],
  "model_checking", SCHED, "complete for the drivers given (2-3 callers) up to the reported preemption bound at statement granularity; assumes sequentially consistent memory")
p("C02", "A failed connection fails its calls, never hangs or leaks into the next",
  "When a connection breaks (read error, write error, garbage input, failed dial), every call outstanding on it returns an error and no call waits forever. The failed connection is closed, and a later call dials a fresh one and is served normally. Nothing that happens late on the old connection (bytes, errors) can fail, complete or corrupt a call made on the new one.",
  ["schedules", "fault_sequences"], "all interleavings (bounded preemptions) of callers, readers and faults: every fault kind at every point between operations, followed by reconnection",
  "no existing test breaks a connection, let alone at every point of the request/response cycle",
  ["client.go"], [("abort/reconnect of the stream transport", "client.go")],
  "model_checking", SCHED, "complete for the drivers given up to the reported preemption bound; faults are injected between writes and deliveries of whole messages and at cut points inside a message")
p("C03", "RPC outcomes map faithfully from every transport",
  "A call succeeds exactly when the response carries a non-null result that decodes into the caller's destination, and then the destination holds that result. A response with an error object yields that error (code, message and data preserved), a null result yields the not-found error, and an HTTP failure status, undecodable body or ill-typed result yields an error. The server receives the method and parameters the caller gave. This is the same for the stream, HTTP and in-process transports.",
  ["inputs", "configurations"], "every response shape of a bounded grammar x every result type x every transport",
  "tests only exercise well-formed successful replies",
  ["client.go", "seth.go"], [("outcome classification", "client.go Do/Execute/background"), ("HTTP transport", "client.go HTTPTransport")],
  "exploration", INP, "complete over the response grammar in DESIGN.md")
p("C04", "A log filter delivers every log once, in order, and shuts down cleanly",
  "A log filter hands its reader exactly the logs returned by the server's replies, each once and in reply order, until it is closed or a fetch fails. After a close, a fetch failure, or the end of a fixed block range, the output channel is closed; a fetch failure is reported as the filter's error. Closing is safe from any goroutine, any number of times, and uninstalls the filter on the server exactly once.",
  ["schedules", "fault_sequences"], "all interleavings (bounded preemptions) of poller, readers and closers x every reply batch shape and failure point",
  "timing and close/poll races are not reachable from a unit test that runs one schedule",
  ["filter.go"], [("poll loop and close handshake", "filter.go")],
  "model_checking", SCHED, "complete for the drivers given up to the reported preemption bound, in virtual time")
p("C05", "The block iterator yields consecutive blocks until stopped",
  "A block iterator yields the starting block and then every following block exactly once in increasing order with no gaps, however often a block is not yet available or a fetch fails temporarily. After it is stopped, it stops asking the server and its channel is closed once the buffered blocks are drained.",
  ["schedules", "fault_sequences"], "all interleavings of iterator, reader and stopper x all sequences of available / not found / error replies up to a bound",
  "the retry and stop behaviour depends on timing and on replies no test produces",
  ["seth.go"], [("fetch loop", "seth.go BlockIterator")],
  "model_checking", SCHED, "complete for the drivers given up to the reported preemption bound, in virtual time")
p("C06", "Client methods put exactly their arguments on the wire",
  "Every client query sends the JSON-RPC method it stands for with its arguments in protocol order and encoding: block arguments appear as pending, latest, earliest or as the given number in hex, and addresses, hashes, filters and call options appear as given with absent options omitted. The decoded reply is returned unchanged to the caller. The list of pending transactions is taken from the pending block.",
  ["inputs"], "every client method x boundary values of every argument x reply values",
  "tests cover a handful of methods against the in-process chain, which ignores most parameters",
  ["seth.go", "send.go", "filter.go"], [("method wrappers", "seth.go, send.go, filter.go"), ("block specifiers", "seth.go itobs")],
  "exploration", INP, "complete over the argument alphabets in DESIGN.md")
p("C07", "A sender sends exactly the transaction the caller described, correctly signed",
  "Sending fills in only what the caller left out: the sender address, the sender's gas price, a padded gas estimate and the account's pending nonce. With a signer configured, the raw transaction sent is the canonical encoding of precisely those fields, signed over its own signing hash. If estimation, nonce lookup, signing or recovery fails, or the signature belongs to another address than the stated sender, nothing is sent and an error is returned.",
  ["inputs", "fault_sequences"], "every subset of omitted fields x boundary values x every failing step x right/wrong signer",
  "tests do not run a signer against a fake node and inject no failures",
  ["sender.go", "send.go", "transaction.go"], [("defaulting and signing", "sender.go Call")],
  "exploration", "exhaustive enumeration of option subsets and fault points against an independent RLP/secp256k1 decoder", "complete over the option subsets and boundary values in DESIGN.md")
p("C08", "Waiting, draining, cancelling and creating follow the transaction's real fate",
  "Waiting returns nil only once the node reports the transaction as mined, and returns any lookup error. Draining returns nil only when the pending block holds no transaction from the sender, prompting for each one it waits on. Cancelling refuses a mined transaction and otherwise sends a replacement with the same nonce and a strictly higher gas price than the original; creating returns the contract address from the receipt of the transaction it sent, or an error.",
  ["histories", "fault_sequences"], "every sequence of node answers up to a bound (pending, mined, not found, error at each step) x gas price and nonce boundary values",
  "no test drives these protocols through a node whose answers change over time",
  ["sender.go"], [("Wait/Drain/Cancel/Create", "sender.go")],
  "model_checking", "exhaustive enumeration of node-answer sequences driving the real protocol code in virtual time", "complete over answer sequences up to the reported length")
p("C09", "Call data is the canonical contract ABI encoding",
  "Encoding a call produces the first four bytes of the Keccak-256 of the signature followed by the canonical head/tail ABI encoding of the arguments, for every mix of static and dynamic arguments. Encoding panics, rather than producing data, when the signature is malformed, when the number of arguments differs from the signature, or when an argument's kind does not fit its declared type.",
  ["inputs", "programs"], "every signature over a type alphabet up to a number of arguments x boundary values and lengths of each type",
  "tests encode a few fixed calls",
  ["send.go"], [("ABIEncode, EncodeABI, typecheck", "send.go")],
  "exploration", INP, "complete over the signature/value grammar in DESIGN.md; reference is an independent encoder")
p("C10", "Decoding a canonical ABI encoding gives back the values",
  "Decoding the canonical ABI encoding of any tuple of supported values into destinations of the matching types yields exactly those values, at every argument position, with any mix of static and dynamic values, empty or not, and regardless of what the destinations held before.",
  ["inputs"], "every tuple over a type alphabet up to a length x boundary values and lengths x fresh or dirty destinations",
  "tests decode a few hand-written words",
  ["send.go"], [("DecodeABI", "send.go")],
  "exploration", INP, "complete over the tuple grammar in DESIGN.md; encodings come from an independent encoder")
p("C11", "Malformed ABI data yields an error, never a panic or runaway allocation",
  "Decoding arbitrary bytes as ABI data into any destination types terminates with nil or an error, never a panic, and allocates no more than a constant multiple of the input size. Data too short for a requested value, and offsets or lengths pointing outside the data, are reported as errors.",
  ["inputs"], "all truncations of valid encodings and all replacements of each offset/length word by boundary values, x destination types",
  "unit tests use valid data; the hostile inputs are combinatorial",
  ["send.go"], [("bounds checks", "send.go DecodeABI")],
  "exploration", INP, "complete over truncations and word substitutions of the base encodings in DESIGN.md")
p("C12", "Text codecs for addresses, hashes, data and quantities round-trip",
  "Formatting any address, hash, key, signature, byte string or non-negative integer and parsing the text back yields the same value, whatever the destination held before; quantities use the protocol's form (0x0 for zero, no leading zeros) and data always has an even number of digits. Text that is not well-formed for the type (missing prefix, wrong length, bad digit, overflow) is rejected with an error.",
  ["inputs"], "all short byte strings and digit strings, every single-character corruption, boundary integers, fresh or dirty destinations",
  "tests check a few constants",
  ["hex.go", "seth.go", "signature.go"], [("hexdecode/hexstring", "hex.go"), ("Int/Uint64 text forms", "seth.go")],
  "exploration", INP, "complete over the value sets in DESIGN.md")
p("C13", "Serialised blocks, transactions, receipts, logs and bundles round-trip",
  "Encoding a block, transaction, receipt, log or compiled bundle in the binary serialisation and decoding it yields an equal value, through both the streaming and the in-memory form, and the two forms produce the same bytes. Truncated input is rejected with an error and never panics.",
  ["inputs"], "every assignment of {zero, absent, boundary} to each field (pairwise complete), all truncations",
  "generated tests only round-trip zero values",
  ["seth_gen.go", "compile_gen.go", "seth.go"], [("generated codecs", "seth_gen.go, compile_gen.go"), ("Int codec", "seth.go")],
  "exploration", INP, "complete for all pairs of field assignments")
p("C14", "Transactions encode to canonical RLP and hash per EIP-155",
  "The signing hash and the signed encoding of any transaction equal those of the Ethereum specification for chain id 1: canonical RLP of nonce, gas price, gas, recipient, value and input, extended with the chain id for hashing and with v, r, s when signed. A signed encoding decodes, in an independent implementation, to the same fields and sender. Encoding and signing leave the transaction unchanged, and its other fields (hash, block, index, sender) have no effect.",
  ["inputs"], "all combinations of boundary values of every field, including every input length around RLP length thresholds",
  "tests compare a handful of fixed transactions",
  ["transaction.go"], [("RLP encoder", "transaction.go")],
  "exploration", INP, "complete over the field value sets in DESIGN.md; reference is go-ethereum's RLP and signer")
p("C15", "Signatures verify, recover the signer, and are canonical",
  "Signing any hash with any valid private key gives a signature that is accepted by an independent implementation, has s in the lower half of the order, and from which recovery returns exactly the signer's public key. The secret nonces of signatures are large, and those of different hashes or of different keys differ. Recovery from a malformed or non-canonical signature (zero or out-of-range r or s, high s, r that is no curve point) returns an error and never a key or a panic. Keys convert to and from crypto/ecdsa unchanged; a generated key is a valid one and new every time.",
  ["inputs"], "all pairs of boundary keys and hashes; all replacements of r, s, v by boundary values",
  "tests use a few random keys; boundary values and invalid signatures are never sampled",
  ["signature.go"], [("Sign/Recover/parts", "signature.go")],
  "exploration", INP, "complete over the key/hash/signature alphabets in DESIGN.md; reference is libsecp256k1 via go-ethereum")
p("C16", "Curve arithmetic obeys the secp256k1 group law",
  "For all points reachable as small or boundary multiples of the generator, addition, doubling, negation, scalar multiplication and base multiplication agree with the group law, including the point at infinity, equal and opposite operands, and scalars that are zero, the order, or larger than the order. Results are always reduced and on the curve, and inputs are not modified.",
  ["inputs"], "all pairs of points and scalars over a boundary alphabet, with scalar byte strings of every length",
  "tests check fixed vectors; coincidences such as P + (-P) or scalars at the order are not sampled",
  ["ec/btcec.go", "ec/field.go"], [("Jacobian addition, NAF/endomorphism multiplication", "ec/btcec.go"), ("field arithmetic", "ec/field.go")],
  "exploration", INP, "complete over the alphabet in DESIGN.md; reference is big-integer affine arithmetic")
p("C17", "Hashing is Keccak-256 however the input is split",
  "For every message length and every way of splitting the message into writes, the incremental hashes equal the reference Keccak and SHA-3 functions and equal the one-shot functions. Reading a digest does not disturb further writes, resetting restores the initial state, and extendable output equals the reference for every split of reads.",
  ["inputs", "histories"], "every message length across several rate blocks x every two-way split x every short operation sequence",
  "tests hash a few vectors in one write",
  ["keccak/sha3.go", "keccak/hashes.go", "seth.go"], [("sponge buffering", "keccak/sha3.go"), ("one-shot helpers", "keccak/hashes.go, seth.go")],
  "model_checking", SEQ, "complete over lengths, splits and operation sequences reported; reference is golang.org/x/crypto/sha3")
p("C18", "Key files decrypt to the stored key with the right passphrase only",
  "Decrypting a key file with the right passphrase yields the private key that was stored, for every supported key-derivation function and parameter set, and key files written here are readable by an independent implementation of the format. A wrong passphrase, any altered ciphertext, salt, IV, MAC or parameter, or a mismatching address yields an error, never a wrong key or a panic.",
  ["inputs", "configurations"], "every KDF/PRF/parameter combination in a small set x every single-field corruption",
  "tests decrypt two sample files",
  ["keyfile.go"], [("kdf/mac/decipher", "keyfile.go")],
  "exploration", INP, "complete over the parameter and corruption sets in DESIGN.md; an altered IV is detectable only through the address field, as the format does not authenticate it")
p("C19", "Amounts and rates parse and print exactly",
  "Parsing a decimal amount or rate gives exactly the stated number scaled by the currency's digits, whatever the destination held before, and printing a parsed value and parsing it again gives the same value. Strings that are not decimal numbers, have more digits than the currency carries, or name an unknown currency are rejected with an error.",
  ["inputs"], "all strings over a small alphabet up to a length x currencies of different precision x fresh or dirty destinations",
  "tests check a list of examples",
  ["cc/currency.go"], [("parseDigits/widestring", "cc/currency.go")],
  "exploration", INP, "complete over all strings up to the reported length")
p("C20", "Currency conversion and arithmetic are exact to the stated precision",
  "Converting an amount multiplies by the rate and rescales between currency precisions, losing less than one smallest unit of the target; a rate built from a floating-point number is the closest representable rate, and inverses are within one unit of precision. Addition, subtraction, negation and comparison are exact, never modify their argument, and mixing currencies is refused.",
  ["inputs"], "all combinations of boundary amounts, rates, signs and currency pairs",
  "tests check a list of examples",
  ["cc/currency.go"], [("Convert/Inverse/NewRate", "cc/currency.go")],
  "exploration", INP, "complete over the alphabets in DESIGN.md; reference is exact rational arithmetic")
p("C21", "The state tree is a persistent map with isolated snapshots and copies",
  "A tree behaves as a sorted map, for lookups, deletions and in-order iteration. Rolling back to a snapshot restores exactly the content at the time it was taken, for every snapshot still valid, however the tree changed in between. A copy made at a snapshot has that snapshot's content, and no later operation on the original or on any copy is visible in the others or in their snapshots.",
  ["histories"], "all sequences of insert, delete, snapshot, rollback and copy up to a depth over a few keys and up to three live trees",
  "the copy-on-write bugs need particular multi-step histories across trees that share storage; the existing test runs one random history",
  ["tevm/tree.go"], [("copy-on-write nodes, epochs, snapshots", "tevm/tree.go")],
  "model_checking", SEQ, "complete up to the reported depth; callers do not modify slices they handed over")
p("C22", "Reverting EVM state restores every observable exactly",
  "After any sequence of account, balance, nonce, code, storage, refund, log and self-destruct operations, reverting to a snapshot restores every observable of the state to its value when the snapshot was taken, for nested snapshots in any valid order. Between snapshots, every read returns the last value written.",
  ["histories"], "all sequences of state operations, snapshots and reverts up to a depth over two accounts and two storage slots",
  "nested reverts with interleaved writes are combinatorial; tests revert rarely",
  ["tevm/evm.go", "tevm/tree.go"], [("Snapshot/RevertToSnapshot and the vm.StateDB accessors", "tevm/evm.go")],
  "model_checking", SEQ, "complete up to the reported depth; reference is plain maps")
p("C23", "Sealed blocks are immutable and historical views show exactly their block",
  "The view of the chain at a sealed block shows the balances, nonces, code, storage, transactions and receipts as they were when that block was sealed, forever, whatever is executed or sealed afterwards. Executing anything against a historical view changes neither the chain nor any other view, and asking for an unknown block yields no view.",
  ["histories"], "all sequences of transfers, contract calls, seals and view operations up to a depth, all blocks re-checked after each step",
  "tests look at one or two blocks after a fixed history",
  ["tevm/evm.go"], [("AtBlock/Seal/atSnap", "tevm/evm.go")],
  "model_checking", SEQ, "complete up to the reported depth")
p("C24", "Chain copies are independent and fully usable",
  "A copy of a chain has the same state, pending block and history as the original at that moment, supports every operation the original does, and from then on nothing done to one is visible in the other.",
  ["histories"], "all sequences of operations on a chain and its copies up to a depth, both compared with the reference after each step",
  "tests copy once and look at a balance",
  ["tevm/evm.go"], [("Chain.Copy", "tevm/evm.go")],
  "model_checking", SEQ, "complete up to the reported depth")
p("C25", "Executing transactions conserves ether",
  "Executing transactions never changes the total amount of ether: transfers (including to oneself, to a new account, to a contract, or failing ones), contract creation with value, internal calls and self-destruction move exactly the stated value from payer to payee or nothing at all. A transfer of more than the balance fails and changes no balance. A new account made with some ether has exactly that much.",
  ["histories", "inputs"], "all sequences of value-moving transactions up to a depth over a few accounts and contracts, including self-transfers and self-destructs",
  "tests only transfer between two distinct funded accounts",
  ["tevm/evm.go"], [("dotransfer, Suicide", "tevm/evm.go")],
  "model_checking", SEQ, "complete up to the reported depth; self-destruct to oneself burns, as in the protocol")
p("C26", "Queries leave the chain unchanged",
  "Constant calls, gas estimates, balance, block, transaction, receipt and log queries - successful or failing, at any block - leave every observable of the chain as it was, so repeating a query gives the same answer, whatever the caller does with what it got. A gas estimate, offered as the gas limit, is enough for the same transaction to succeed.",
  ["histories", "inputs"], "every query kind x every target/outcome x every reachable short history, full observable state compared before and after",
  "tests do not compare the state around queries",
  ["tevm/transport.go", "tevm/evm.go"], [("staticCall/estimate/getBlock", "tevm/transport.go")],
  "model_checking", SEQ, "complete over the query kinds and histories reported")
p("C27", "Mined transactions, receipts and blocks are recorded consistently",
  "Every mined transaction can be fetched by its unique hash with the fields that were sent, its block and its index; once its block is sealed its receipt has the same hash and index, the right status, gas, contract address and logs, and cumulative gas adds up over the block. A block fetched by number or hash lists exactly its transactions, in order, as hashes or as full transactions.",
  ["histories"], "all sequences of mining (success, revert, creation, logs) and sealing up to a depth, also when the caller reuses the transaction value",
  "tests mine one or two transactions per block and look at few fields",
  ["tevm/evm.go", "tevm/transport.go"], [("Mine/Seal", "tevm/evm.go"), ("getBlock/receipt/transaction", "tevm/transport.go")],
  "model_checking", SEQ, "complete up to the reported depth")
p("C28", "Log filters on the chain match exactly and report each change once",
  "A log filter returns exactly the logs whose block is in the range, whose address matches, and whose topics match position by position with absent topics as wildcards, in emission order. Successive polls for changes partition the matching logs: each is reported once, none is lost, and polling one filter does not affect another or the full listing.",
  ["histories", "inputs"], "all filter shapes over a small alphabet of addresses and topics x all interleavings of log emission and polling up to a depth",
  "the existing test uses one filter shape",
  ["tevm/transport.go", "tevm/evm.go"], [("matches/filterChanges/filterLogs", "tevm")],
  "model_checking", SEQ, "complete over the filter shapes and histories reported")
p("C29", "A fork overlays the base chain without modifying or losing it",
  "Reading an account, code or storage slot on a fork gives the value written on the fork if any, and otherwise the base chain's value at the fork block, also after reverts, clearing writes and repeated reads. The base chain only ever receives read requests for the fork block.",
  ["histories"], "all sequences of reads, writes, clears, snapshots and reverts up to a depth over accounts that exist in the base chain or not",
  "the only test of forks needs a network",
  ["tevm/evm.go"], [("Fallback reads and write-through", "tevm/evm.go")],
  "model_checking", SEQ, "complete up to the reported depth; the base chain is a recorded stub")
p("C30", "A chain survives JSON serialisation",
  "Serialising a chain to JSON and loading it yields a chain that answers every query like the original - accounts, storage, code, pending block, sealed blocks, transactions, receipts, historical views and logs - and continues to behave like it under the same further operations.",
  ["histories"], "all short histories x serialisation at every step, then all short continuations on both",
  "the existing test serialises one chain and compares a few values",
  ["tevm/evm.go", "tevm/tree.go"], [("MarshalJSON/UnmarshalJSON", "tevm/evm.go")],
  "model_checking", SEQ, "complete up to the reported depth")
p("C31", "Concurrent use of a chain is equivalent to some sequential order",
  "Calls made concurrently on one simulated chain through its methods or through RPC behave as if executed one at a time in some order: every result and the final state match a sequential execution, and no call deadlocks or panics.",
  ["schedules"], "all interleavings (bounded preemptions) of two or three goroutines with one or two operations each, over all pairs of operations",
  "the race detector sees one schedule; lost updates need particular interleavings",
  ["tevm/evm.go", "tevm/transport.go"], [("the chain mutex", "tevm/evm.go")],
  "model_checking", SCHED, "complete for the operation pairs given up to the reported preemption bound")
p("C32", "The compile cache never changes the result of compilation",
  "Compiling with the cache returns the same bundle as compiling without it: for any two different sets of sources, after a crash or torn write at any point of writing a cache file, and with a stale or corrupt cache file present. Cleaning up stale cache files removes no file other than stale cache files of the same sources.",
  ["histories", "crash_points", "inputs"], "all pairs of small source sets, every truncation and single-byte corruption of a cache file, every location of the cache directory",
  "tests need a compiler and never crash mid-write; key collisions are combinatorial",
  ["compile.go", "compile_gen.go"], [("cachename/cachedBundle/writeCache", "compile.go")],
  "fault_enumeration", "exhaustive enumeration of source-set pairs and of every torn or corrupted cache file, against a fake compiler", "complete over the pairs and corruptions reported; the compiler is a stub script that records invocations")
p("C33", "Source maps resolve every program counter to its own source range",
  "For any bytecode and compressed source map, the source text reported for a program counter is the range the map gives for the instruction that contains that byte, with omitted fields inherited from the previous entry and push data belonging to its push instruction. Program counters outside the code or the map, or entries with no source, give an empty string and never a panic.",
  ["inputs"], "all short bytecodes over opcode classes x all short maps over a field alphabet x every pc",
  "tests need a compiler and only look at one contract",
  ["compile.go"], [("compileSourcemap/compilePos/SourceOf", "compile.go")],
  "exploration", INP, "complete over bytecodes and maps up to the reported sizes")
p("C34", "Generated bindings compile and call the contract faithfully",
  "For every contract interface made of supported types, the generated Go code compiles, has one method per non-trivial function (named after it, capitalised, where no other function has that name), and calling a method sends the function's selector with its arguments in order and returns the decoded outputs in order.",
  ["programs"], "all function shapes over the type alphabet up to two inputs and outputs, constant and not, several per contract",
  "the one test needs a compiler and covers a few types",
  ["bindgen/main.go"], [("typeconv/rettype/generate", "bindgen/main.go")],
  "exploration", "exhaustive enumeration of interface shapes; every generated program is compiled and executed against a recording node", "complete over the interface alphabet in DESIGN.md")
p("C35", "The eth tool encodes exactly the arguments it was given, or refuses",
  "For every function signature over the supported types, a value that fits its declared type is sent ABI-encoded exactly as written (integers of every width and sign, booleans, addresses, fixed and dynamic bytes, strings, arrays), and decoded results are printed as returned. A transaction has the nonce and the gas price that were asked for. A value that does not fit (overflow, wrong length, bad syntax, too few or too many arguments) is refused with a non-zero exit and nothing is sent. So is, unless it is forced, a call of a function that the contract's code does not offer.",
  ["inputs"], "all types x boundary values just inside and just outside each type",
  "the tool has no tests",
  ["cmd/eth/call.go", "cmd/eth/read.go"], [("parsearg/etherint/etherarr", "cmd/eth/call.go")],
  "exploration", "exhaustive enumeration of type/value pairs run through the real tool against a recording node", "complete over the type/value table in DESIGN.md")
p("C36", "The eth tool signs only with the one key that was selected",
  "The tool signs with exactly the key whose address or name the key specification matches; a specification that matches no key or more than one is refused and nothing is signed. The order and number of other key files never matter.",
  ["configurations"], "all small sets and orders of key files x specifications matching none, one or several",
  "the tool has no tests",
  ["cmd/eth/keys.go"], [("signer selection", "cmd/eth/keys.go")],
  "exploration", "exhaustive enumeration of key directories and specifications run through the real tool", "complete over key sets up to the reported size")
p("C37", "Jump-table analysis finds exactly the contract's selectors",
  "For bytecode with any of the supported dispatch preambles followed by any sequence of supported table entries, the tool reports exactly those selectors with their destinations, in order, stopping at the first thing that is not an entry. Arbitrary or truncated bytecode never crashes it.",
  ["inputs"], "all preambles x entry forms x push widths x table lengths, all truncations and byte corruptions",
  "the tool has no tests",
  ["cmd/eth/jumptab.go"], [("jumpentries", "cmd/eth/jumptab.go")],
  "exploration", INP, "complete over the table grammar in DESIGN.md")
p("C38", "The hardware key store signs with the requested key and reports device failures",
  "A hardware key store that is unlocked lists exactly the usable keys of the device and signs with exactly the requested key: every signature it returns is a valid canonical one by that key over that digest. Unlocking fails with a wrong passphrase, and nothing can be listed or signed while locked. Every failing device call is reported as an error, whatever order the device fails in, and never leaves a wrong or partial result behind; sessions are released. The driver passes its arguments to the device unchanged and maps its return codes faithfully.",
  ["fault_sequences", "inputs"], "every history of operations up to a depth x every failing device call; every answer a device can give to a signing request; every driver call x return code",
  "the one test needs the device and skips without it",
  ["yubihsm/yubihsm.go", "yubihsm.go", "hsm.go"], [("cgo driver", "yubihsm/yubihsm.go"), ("sessions, key list and signer", "yubihsm.go")],
  "fault_enumeration", "explicit enumeration of all operation histories and all single failing device calls on the real driver, bound to a software device with the vendor library's interface", "complete over the histories and faults in DESIGN.md; the vendor's library itself is replaced by a software device")

p("C39", "The eth tool reports exactly what the node answered",
  "Every query command prints exactly the node's answer: balances in every format, contract code, and the blocks that a specification or range stands for, in order and none outside the range. A malformed argument, a block that does not exist or a failing answer makes the command fail with a non-zero exit, and nothing false is printed. Posting sends each given transaction's bytes unchanged, once and in order, stops at the first failure, and sends nothing if any input is malformed. Recovering prints the signer of a canonical signature or refuses; a generated key file holds a valid key and opens with its passphrase only. The node asked is the one the environment names.",
  ["inputs", "fault_sequences", "configurations"], "every command x bounded alphabets of arguments and node states x every failing answer; every way of naming the node",
  "the tool has no tests",
  ["cmd/eth/block.go", "cmd/eth/balance.go", "cmd/eth/code.go", "cmd/eth/post.go", "cmd/eth/recover.go", "cmd/eth/keygen.go", "cmd/eth/client.go", "dial.go"], [("block ranges", "cmd/eth/block.go"), ("posting", "cmd/eth/post.go"), ("node selection", "cmd/eth/client.go, dial.go")],
  "exploration", "exhaustive enumeration of command lines, node states and failing answers run through the real tool against a recording node", "complete over the tables in DESIGN.md")

p("C40", "The chain's server answers as the protocol says and as in process",
  "Posting a JSON-RPC request to the chain's HTTP server has exactly the effect and the answer that executing it in process has, framed as a JSON-RPC 2.0 response: the request's id, and either a result or an error. Malformed bodies, unknown methods and missing or extra parameters are refused and change nothing, whatever came before. Every way of naming a block names the same block, and quantities are hex. The daemon serves a fresh chain, or a fork of the node and block it was told, with a funded default account, and refuses bad arguments.",
  ["inputs", "histories", "configurations"], "every method x the product of raw parameter alphabets; every truncation of a request; every sequence of requests up to a depth; every way to start the daemon",
  "the server and the daemon have no tests",
  ["tevm/transport.go", "tevm/tevmd/main.go", "tevm/evm.go"], [("HTTP framing", "tevm/transport.go ServeHTTP"), ("dispatch", "tevm/transport.go execute"), ("daemon", "tevm/tevmd/main.go")],
  "model_checking", "exhaustive enumeration of requests and request sequences on the server and on a twin chain in process; every start-up of the real daemon against a recording node", "complete over the tables in DESIGN.md")

p("C41", "Direct executions on a chain have exactly the effect of their message",
  "Creating a contract, creating one at an address, calling, statically calling, estimating, sending and adjusting balances on a chain have exactly the effect, result and error of the message they describe, from the given sender; a failing one leaves what Ethereum's rules leave, a query nothing, and none of them is recorded as a transaction. A new account is new and holds what was asked. Code sees the block it runs in: its number, time, miner, difficulty and gas limit, and the hashes of earlier blocks. Sealing keeps the block's parameters and time never runs backwards. A contract that self-destructed is gone after its transaction.",
  ["histories"], "every sequence of helper calls, transactions, sealing and parameter changes up to a depth, on chains, views, copies and reloads",
  "tests make one or two successful calls of each helper",
  ["tevm/evm.go"], [("helpers", "tevm/evm.go Create, CreateAt, Call, StaticCall, EstimateGas, Send"), ("block context", "tevm/evm.go context, seal"), ("end of a transaction", "tevm/evm.go finalise")],
  "model_checking", "exhaustive exploration of operation sequences on the real chain in lock step with go-ethereum's EVM over plain maps", "complete up to the depths in DESIGN.md; one known finding (storage of re-created contracts)")

p("C42", "Token transfers are recognised exactly",
  "A log is parsed as a token transfer exactly if it is an ERC20 Transfer event: three topics of one word each, the first the event's hash, and one word of data; the token, the sender, the recipient, the amount and the block are then those of the log and its receipt, and the log is not changed. Reading the token transfers between two people for a token over a range of blocks delivers every matching event, in order, and no other.",
  ["inputs"], "every shape of log and every combination of transfer filter arguments over a chain that holds every combination of events",
  "tests parse one real transfer",
  ["seth.go", "filter.go"], [("recognition", "seth.go ParseTransfer"), ("filtering", "filter.go TokenTransfers")],
  "exploration", "exhaustive enumeration of log shapes and filter arguments against the definition", "complete within the bounds in DESIGN.md")
p("C43", "The currency registry keeps one meaning per name and token address",
  "Registering a currency or token adds exactly that name, with its number of digits, and, for a token, that address; a name or address already taken, and a malformed address, are refused without any effect. Lookups by name or address, the text forms and every method of a currency answer from what is registered; a value handed out by the registry cannot be used to change it. The well-known currencies have their standard digits and distinct addresses.",
  ["histories"], "every sequence of registrations, accepted and refused, up to a depth",
  "tests look up two currencies",
  ["cc/currency.go"], [("registry", "cc/currency.go registerCurrency, CurrencyByName, TokenByAddress, Addr")],
  "model_checking", "exhaustive exploration of registration sequences in lock step with plain maps", "complete up to the depth in DESIGN.md")
p("C44", "Descriptor signatures and bytecode metadata are computed exactly",
  "The signature of a function or event is its name and the canonical types of its inputs, with tuples spelt out at any depth, so that its hash is the selector or topic; looking up a signature in a contract finds the descriptor with that signature and nothing else. The metadata hash of a bytecode is that of its trailer if it ends in a well-formed one and absent otherwise; stripping removes exactly the trailer and leaves other code as it is.",
  ["inputs"], "every descriptor over nested types, every small contract, every single-bit and length damage of a metadata trailer",
  "tests look at one contract compiled by solc",
  ["abi.go", "compile.go"], [("signatures", "abi.go Signature, Find"), ("metadata", "compile.go MetadataHash, StripBytecode")],
  "exploration", "exhaustive enumeration of descriptors and damaged trailers against the definition", "complete within the bounds in DESIGN.md")
p("C45", "The ERC20 suite passes compliant tokens and fails deviating ones",
  "Run on a chain with a token that follows the ERC20 standard, with or without an owner and a burn function, and refusing over-spending by returning false or by failing, the compliance suite passes. If at the calls the suite makes the token, or the function that mints, deviates - an event is missing, repeated, of the wrong form, party or contract, a balance, supply, result or allowance check is wrong, or a call fails - the suite fails as a test does, and never crashes. The same holds for the suite's check of a contract's public interface.",
  ["inputs"], "every compliant variant and every token and interface with one or two deviations",
  "the only test runs one compliant token, and needs solc",
  ["tevm/erc20/compliance.go"], [("behaviour", "tevm/erc20/compliance.go TestCompliance"), ("interface", "tevm/erc20/compliance.go TestABICompliance")],
  "exploration", "exhaustive enumeration of deviating tokens executed by the real suite on the real chain", "complete for the deviations listed in DESIGN.md, alone and in pairs")

p("C46", "A fork survives failures of its base chain",
  "On a forked chain, when the base chain fails to answer any single request made during an operation - no connection, an error response, a malformed or null result - that operation fails (with an error or a panic) and nothing else: it has no effect on any account, code, storage slot, log, block or receipt, no operation hangs afterwards, and once the base chain answers again everything, including the operation that failed, behaves exactly as if the failed attempt had not been made. An operation that reports success despite a fault has its proper result and full effect.",
  ["fault_sequences", "histories"], "every fault position and kind in every operation of the histories, over API, RPC and HTTP",
  "tests fork only from chains that always answer",
  ["tevm/evm.go", "tevm/transport.go", "tevm/tree.go"], [("fallback", "tevm/evm.go getAccount, getCode, GetState"), ("rollback", "tevm/evm.go undo, Call, Create, CreateAt, Send, mine"), ("locks", "tevm/transport.go lockexec")],
  "fault_enumeration", "exhaustive enumeration of base-chain faults at every request of operation sequences executed on the real fork, against a twin without faults", "1 or 2 faults per history; histories of 2 (quick) or up to 4 operations")

p("C47", "The eth tool uses a hardware store's keys as it uses key files",
  "Built with a hardware driver, the tool looks for the device where the hint says, unlocks it with the passphrase from the environment or the terminal, and lists its usable keys along with those of key files. It signs messages and transactions with the one key, of either kind, that the specification matches, exactly as with that key in a key file. A specification that matches none or several over both kinds together, and a wrong device passphrase, are refused. When a device call fails, or the device answers with anything but a signature by that key, the tool never signs with a wrong key and never prints or sends anything false.",
  ["fault_sequences", "configurations"], "every device content, set of key files, specification and way of giving the passphrase of a table, and every failing device call in every command",
  "no test runs the tool, let alone with a device",
  ["cmd/eth/hsm.go", "cmd/eth/keys.go", "cmd/eth/sign.go", "cmd/eth/call.go", "cmd/eth/keylist.go", "yubihsm.go", "hsm.go"], [("probe", "cmd/eth/hsm.go hsmprobe"), ("selection", "cmd/eth/keys.go keys, signer"), ("driver", "yubihsm.go")],
  "fault_enumeration", "exhaustive enumeration of devices, key files, specifications and single device faults; the real program runs on a software device and its signatures are recovered independently", "devices of up to 6 objects, up to 2 key files, one fault per run")

BUILT = set(open(os.path.join(ROOT, "tools", "built.txt")).read().split())
PENDING = "check not built yet"

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(dict(
            id=q["id"], title=q["title"], statement=q["stmt"],
            quantifier=dict(over=q["over"], text=q["text"]),
            why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]])), ensure_ascii=False) + "\n")

checks, na = [], []
for q in P:
    if q["id"] in BUILT:
        checks.append({"property": q["id"], "quick_cmd": "./run.sh " + q["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + q["id"],
                       "technique": "model checking: " + q["technique"], "level": q["level"], "level_note": q["note"]})
    else:
        na.append({"property": q["id"], "reason": q["na"] or PENDING})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: checks under the controlled scheduler build an instrumented overlay of the current sources at run time."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")

kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
kf["fixed"] = []
for l in open(os.path.join(ROOT, "tools", "fixed.txt")):
    i, c, w = l.strip().split(" ", 2)
    kf["fixed"].append("fixed: property=%s %s %s" % (i, c, w))
json.dump(kf, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "known_findings.json"), "a").write("\n")
