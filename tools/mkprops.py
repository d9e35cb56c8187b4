#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The unit of work sent is exactly the calls made, in order",
 "For every sequence of builder calls with supported arguments, Send hands the sender one contiguous byte string consisting of exactly one well-formed X Protocol message per operation, in call order, nothing missing, added, reordered or altered: message kind, length header, statement text and arguments, prepared-statement id, table name, columns in order, rows in order, criteria and every column assignment are those the caller gave. "
 "The bytes do not depend on the buffer size passed to New, on what was built before a Reset, or on how long names, texts or rows are. "
 "Building copies its inputs and never modifies them: mutating a slice or map after the call changes nothing.",
 ["programs", "inputs"], "every sequence and nesting of builder calls, every initial capacity, every length of name, statement and row (below, at and above each varint boundary), any number of Reset/rebuild cycles",
 "The repository's own tests never run the root package (they need a MySQL server), check no frame produced by the builder, and the xproto tests encode a handful of short messages into a nil buffer.",
 ["builder.go", "crud.go", "xpipe.go", "xproto/xproto.go", "xproto/insert.go", "xproto/update.go", "xproto/prepare.go", "xproto/expect.go", "slice/slice.go"],
 [("length header back-patched after the body is appended", "builder.go Insert/InsertRow/Update, crud.go InsertF/UpdateF, xproto StmtExecute/Execute/Delete"), ("size precomputation with sizeVarint and slice.ForAppend/Insert", "xproto/*.go, slice/slice.go")],
 [("buf", "bytes of the unit of work so far", "builder.go Builder")], ["bytes passed to netx.Sender.Send"])

prop("C02", "Every supported value reaches the wire with its type and value intact",
 "Every supported Go value given as a statement argument or as an expression literal (nil, booleans, all integer widths, floats, strings, byte slices, times, durations at whole-second resolution, strings with a collation, JSON/XML/geometry, and for arguments also pointers to these) decodes from the message to the protocol scalar of the matching type carrying exactly that value, content type and collation; nil, nil byte slices and nil pointers are NULL, and empty strings and empty non-nil byte slices are not. "
 "This holds for every value, for every size of string or byte slice, and wherever in a message the value stands.",
 ["inputs"], "all values of every supported type, all lengths, every position in a message and every buffer capacity",
 "The unit tests encode about fifty hand-picked literals, none with a payload longer than 26 bytes, never check times or durations, collations or content types, and always start from an empty buffer.",
 ["xproto/any.go", "xproto/expr.go", "xproto/scalar.go", "xproto/protobuf.go", "expr.go", "slice/slice.go"],
 [("hand-written protobuf encoders with computed sizes", "xproto/any.go, xproto/expr.go"), ("sizeVarint approximation", "xproto/protobuf.go")],
 [], ["bytes passed to netx.Sender.Send"])

prop("C03", "Expressions keep their operator, operands and nesting",
 "Every expression built with the package's combinators reaches the wire as the same tree: the protocol operator or function the combinator stands for, exactly its operands, in order, and columns and literals as leaves, at any nesting depth, operand count and operand size, both as a criterion and as an inserted or assigned value. Building an expression does not modify the operand list it is given, so lists and expressions can be shared. "
 "Each operator or function name is the one X Protocol defines for that operation.",
 ["inputs", "programs"], "all expression trees over all combinators, any depth, any operand count and any operand size",
 "Tests check only the operator name of six one-level expressions through xproto, none of the roughly forty public combinators, and never the operands.",
 ["expr.go", "xproto/expr.go", "slice/slice.go", "xproto/update.go", "xproto/xproto.go"],
 [("operands encoded first, header inserted in front", "xproto/expr.go AppendExprOperator/AppendExprFunctionCall, slice/slice.go Insert"), ("operator names", "expr.go")],
 [], ["bytes passed to netx.Sender.Send"])

prop("C04", "A unit of work that failed to build is never sent",
 "Once any step of building fails (an unsupported value anywhere in arguments, rows, criteria or assignments, a row of the wrong width given to Insert, an unknown isolation level, an encoder supplied by the caller that returns an error, or an error returned from a Tx, ExpectFailOnError, InsertF or UpdateF callback), every later Send returns that first error and passes nothing to the sender, whatever further calls are made and at whatever nesting depth it happened. "
 "Building steps report failures through Send only and do not panic, and Reset clears the failure so that the next unit of work is built and sent as by a new builder.",
 ["programs", "histories"], "every program of builder calls in which any step fails, at every depth, followed by any further calls, and every number of Reset cycles",
 "No test makes a builder step fail; the root package's tests do not run.",
 ["builder.go", "crud.go", "xpipe.go", "xproto/any.go", "xproto/expr.go", "xproto/insert.go"],
 [("sticky err field checked first by every call and by send", "builder.go"), ("callback result folded into the builder's error", "builder.go call, crud.go InsertF/UpdateF")],
 [("err", "first failure since the last Reset", "builder.go Builder")], ["error returned by XPipe.Send", "whether netx.Sender.Send was called"])

prop("C05", "Transaction and expectation scopes are bracketed and exclusive",
 "A Tx call contributes its isolation-level statement (if any), the matching START TRANSACTION, then exactly what its callback built on the builder it was given, then one COMMIT; ExpectFailOnError contributes an expectation-open message with the no-error condition and the requested context, its callback's messages, and one matching close; scopes nest to any depth and are always balanced. "
 "While a callback runs, using any enclosing builder (including Send and Reset) panics and leaves the unit of work unchanged, and a builder, insert or update handle kept after its callback has returned can no longer change the unit of work.",
 ["programs"], "every nesting of scopes, every isolation level and context, every point at which an enclosing or stale builder is used",
 "No test that runs nests scopes, uses an isolation level or misuses a builder.",
 ["builder.go", "crud.go"],
 [("child builder and disabled flag", "builder.go call; crud.go InsertF/UpdateF"), ("isolation level switch", "builder.go Tx")],
 [("disabled", "builder may not be used because a child is active", "builder.go Builder")], ["panics", "bytes passed to netx.Sender.Send"])

prop("C06", "An InsertRow handle always names the row it was returned for",
 "In a unit of work, each InsertRow call is followed immediately by a statement that saves the generated id of exactly that row in a session variable that no other InsertRow of the unit uses, and the handle it returns, wherever it is later used as a value or criterion in that unit, refers to that variable.",
 ["programs"], "any number and order of InsertRow calls, scopes and uses of their handles in one unit of work",
 "The only test that uses InsertRow is skipped.",
 ["builder.go", "xproto/expr.go"],
 [("variable name derived from the buffer length", "builder.go InsertRow"), ("AppendExprVariable", "xproto/expr.go")],
 [], ["bytes passed to netx.Sender.Send"])

prop("C07", "A transactional unit of work is all-or-nothing, even with pooled connections",
 "For a unit of work whose statements stand in one Tx inside ExpectFailOnError and which is sent through the pool, at all times either none or all of its statements' effects are committed on the server, whichever statement fails, whenever the connection is lost and whatever other units of work share the pool before, after or meanwhile. "
 "No statement ever takes effect twice. If Send reports no error and no error response, or a good response to the COMMIT, then all of them are committed; if it reports an error response up to the COMMIT's then none of them ever will be; a unit of work that could not be built has no effect and Send reports an error; and one that nothing happens to succeeds.",
 ["histories", "fault_sequences", "schedules"], "all sequences and interleavings of units of work over a pool, every statement failing (ordinary or fatal error), connection loss before or after any message is processed, and lost responses",
 "Needs a server; no test that runs sends anything. A unit that fails half way leaves a transaction open on its connection, which only shows in what the next unit does.",
 ["builder.go", "netx/pool/fifoch/fifoch.go", "netx/connection/connection.go"],
 [("no-error expectation around START TRANSACTION .. COMMIT", "builder.go Tx, ExpectFailOnError"), ("pool discards a connection whose unit of work failed", "netx/pool/fifoch/fifoch.go Send")],
 [("idle connections", "server sessions that later units of work will run on", "netx/pool/fifoch/fifoch.go")], ["committed effects at a model server", "responses and error of Send"])

prop("C08", "Send returns one response per message, in order, whatever the stream",
 "For every unit of work and every stream of server messages, Send returns exactly one response per message sent, in order: nil where the server accepted it and an error carrying the server's severity, code, SQL state and text where it refused it; notices, result-set metadata, rows and fetch markers in between are consumed and never shift the correspondence. "
 "This holds for any message size and any fragmentation of the stream, and afterwards the connection is positioned so that the next Send reads exactly its own responses; a fatal error ends the exchange and is also returned as Send's error. Connections in use at the same time do not affect each other.",
 ["inputs", "histories"], "all server message sequences, message sizes (below, at and above the read buffer size), fragmentations, and successive Sends on one connection",
 "No test that runs reads a single server message.",
 ["netx/connection/connection.go", "netx/connection/errors.go"],
 [("walk over the sent frames", "netx/connection/connection.go ReadResponsesToSlice"), ("peek/discard and large-message path", "netx/connection/connection.go Read")],
 [("r", "buffered reader, positioned at the next unread server message", "netx/connection/connection.go conn")], ["responses and error returned by Send"])

prop("C09", "One write per unit; transport and protocol faults always surface",
 "Send transmits the whole unit of work in a single write, never modifies or repeats it, and returns a non-nil error if the write fails, the stream ends or fails at any byte before the last response is complete, the deadline passes, or the server breaks the protocol (a message shorter than its header, an undecodable error message, an authentication message outside authentication). "
 "Each Send is governed by its own context's deadline only: the deadline of an earlier call never affects a later one, and a context without a deadline waits.",
 ["fault_sequences", "histories"], "a fault at every byte offset of every response stream, every kind of fault, every sequence of Sends with and without deadlines on one connection",
 "No test that runs opens a connection or injects a fault.",
 ["netx/connection/connection.go", "xpipe.go", "builder.go"],
 [("SetDeadline at the start of every exchange", "netx/connection/connection.go Send/WriteOne"), ("error returns of Peek/ReadFull", "netx/connection/connection.go Read")],
 [], ["writes and SetDeadline calls seen by net.Conn", "error returned by Send"])

prop("C10", "A pooled connection serves one unit of work at a time, in FIFO order",
 "Under every interleaving of Sends on a pool, no connection is used by two Sends at once, an idle connection is reused before a new one is dialled, the connection that has been idle longest is reused first, and never more than the configured number of connections is kept idle: a connection whose unit of work succeeded is kept if there is room and closed otherwise. "
 "Each Send gets the responses of its own unit of work.",
 ["schedules", "configurations"], "all interleavings of any number of concurrent Sends, pool sizes including zero",
 "No test that runs touches the pool.",
 ["netx/pool/fifoch/fifoch.go"],
 [("buffered channel as idle queue", "netx/pool/fifoch/fifoch.go")],
 [("ch", "idle connections, oldest first", "netx/pool/fifoch/fifoch.go poolCh")], ["connector and connection calls made by the pool", "results of Send"])

prop("C11", "The pool never reuses or leaks a failed connection and never retries",
 "A connection whose Send returned an error or whose unit of work drew an error response is closed and never used again; a pool Send calls the connection at most once with exactly the caller's bytes and context, never retries on another connection, and returns that call's responses and error unchanged; it dials with the caller's context, at most once, a dial failure is returned as such, and with no idle connection and a context that is already done it returns that context's error without dialling. "
 "At quiescence every connection ever dialled is either idle in the pool or closed exactly once.",
 ["fault_sequences", "schedules"], "all interleavings of Sends with any dial, transport or server failure at any point, pool sizes including zero",
 "No test that runs touches the pool or injects a fault.",
 ["netx/pool/fifoch/fifoch.go"],
 [("close instead of release on error", "netx/pool/fifoch/fifoch.go Send")],
 [], ["connector and connection calls made by the pool", "results of Send"])

prop("C12", "Closing the pool is safe, final and leaves nothing open",
 "Close may be called at any time, any number of times, concurrently with Sends and with other Closes, and nothing panics or blocks forever. "
 "Once a Close has returned, every connection that was idle has been closed, every later Send fails with ErrPoolClosed (or its own context's error) without dialling or using a connection, and a Send still in flight completes normally and its connection is then closed rather than kept.",
 ["schedules", "histories"], "all interleavings of Close calls with Sends at any stage",
 "No test closes a pool; the failure needs a Send in flight during Close or a second Close.",
 ["netx/pool/fifoch/fifoch.go", "netx/pool/pool.go"],
 [("closed flag checked when releasing", "netx/pool/fifoch/fifoch.go"), ("drain of the idle queue", "netx/pool/fifoch/fifoch.go Close")],
 [("closed", "no connection may be added any more", "netx/pool/fifoch/fifoch.go poolCh")], ["panics", "connection Close calls", "results of Send"])

prop("C13", "Credentials never cross a channel that is not the one configured",
 "With a TLS configuration on a TCP address, the only thing written before a successful TLS handshake under that configuration (including certificate verification) is the request to switch to TLS; no authentication message is ever sent in clear, whatever the server answers, and bytes received before the handshake are never interpreted after it. "
 "The clear-text password is sent only when the caller configured that mechanism or, after an access-denied answer (error 1045) and only then, over TLS or a Unix socket.",
 ["fault_sequences", "configurations"], "every server behaviour (acceptance, refusal, fatal error, injected data, bad certificate, disconnect at each step) for every transport, TLS and mechanism configuration",
 "No test that runs connects to anything.",
 ["netx/connector/connector.go", "netx/connection/connection.go", "netx/connector/authentication/plain/plain.go"],
 [("capability request, handshake, then reader reset onto the TLS connection", "netx/connector/connector.go New, netx/connection/connection.go Reset"), ("IsSecure guard on the PLAIN fallback", "netx/connector/connector.go New")],
 [], ["bytes a scripted server receives, before and inside TLS"])

prop("C14", "Connecting either yields an authenticated connection or fails closed",
 "Connector.New returns a connection exactly when the server accepted authentication (with the configured mechanism, or with the clear-text fallback after access denied on a secure channel), and that connection is then usable at once and stays so when the context used for connecting ends; in every other case (dial failure, TLS refused or failed, any error answer, malformed answer or challenge that does not belong there, disconnect or deadline at any step) it returns a non-nil error, returns no connection and has closed the network connection it opened. "
 "The messages sent are those of the configured mechanism and account; after access denied on a secure channel the clear-text fallback is tried once, and when it fails too, the error is the original refusal. All this holds however often and by however many goroutines the connector is used.",
 ["fault_sequences", "configurations"], "every server behaviour at every step for every transport, TLS and mechanism configuration",
 "No test that runs connects to anything.",
 ["netx/connector/connector.go", "netx/connection/connection.go", "netx/connection/errors.go"],
 [("close on every error return", "netx/connector/connector.go New"), ("authentication exchange", "netx/connection/connection.go Authenticate")],
 [], ["result of Connector.New", "end of file seen by a scripted server"])

prop("C15", "Authentication data is the right proof for every account and challenge",
 "For every database, user name, password and server challenge of any length, the mechanism name sent is MYSQL41, SHA256_MEMORY or PLAIN as configured and the authentication data is the database, a zero byte, the user name, a zero byte and then: for MYSQL41 nothing if the password is empty, else '*' and the hex of SHA1(password) XOR SHA1(challenge + SHA1(SHA1(password))); for SHA256_MEMORY the hex of SHA256(password) XOR SHA256(SHA256(SHA256(password)) + challenge); for PLAIN the password itself, in the first message. "
 "The message is well-formed whatever the lengths and whatever buffer is passed in. One mechanism value may serve any number of connections, also at the same time.",
 ["inputs"], "all credentials and challenges of all lengths, including those larger than the connection's scratch buffer",
 "No test covers authentication.",
 ["netx/connector/authentication/mysql41/mysql41.go", "netx/connector/authentication/sha256/sha256.go", "netx/connector/authentication/plain/plain.go", "xproto/authentication.go", "slice/slice.go", "netx/connection/connection.go"],
 [("in-place scramble and hex encoding", "mysql41.go, sha256.go Continue"), ("appendWireBytes", "xproto/protobuf.go")],
 [], ["bytes written to net.Conn by Authenticate"])

prop("C16", "A decoded DECIMAL denotes exactly the encoded number",
 "For every MySQL DECIMAL in X Protocol form (scale byte, packed decimal digits, sign nibble; up to 65 digits, any scale, either sign, odd or even digit count), String returns decimal notation that denotes exactly that number, and Decompose returns a form, sign, big-endian coefficient and exponent that denote the same number, whatever buffer is passed and however many goroutines do so at once.",
 ["inputs"], "all packed decimals up to 65 digits with every scale and every sign nibble",
 "The types package has no tests.",
 ["types/decimal.go"],
 [("nibble loop and sign handling", "types/decimal.go Decompose/String"), ("256-bit multiply-add", "types/decimal.go Uint256.MulAdd")],
 [], ["results of Decimal.String and Decimal.Decompose"])

prop("C17", "Units of work built side by side do not affect each other",
 "What a pipe sends, and whether and how building it fails, depends only on the calls made on that pipe. Other pipes that are built, sent or reset before it, between its calls, or at the same time by other goroutines never change it, also when they are given the very same expressions, values, names and lists (which the caller does not modify meanwhile), when some of them fail, and when pipes are reused after Reset.",
 ["schedules", "programs"], "every interleaving of the goroutines building any number of units of work, with and without shared expressions and values",
 "The tests build one unit of work at a time, in one goroutine, and never look at the bytes of the root package's builder.",
 ["xpipe.go", "builder.go", "crud.go", "expr.go", "xproto/any.go", "xproto/expr.go", "xproto/xproto.go", "slice/slice.go"],
 [("every unit of work has its own buffer and error", "xpipe.go New, builder.go Builder"), ("expressions are closures without state of their own", "expr.go"), ("encoders use only their arguments", "xproto/*.go")],
 [("buf, err, disabled", "the unit of work under construction", "builder.go Builder")], ["bytes passed to netx.Sender.Send by each of the pipes"])

prop("C18", "Every encoder adds exactly the message or field asked for to any buffer",
 "Whatever buffer it is given (any content, any spare room, any bytes in that room), each exported encoder of package xproto leaves what the buffer holds unchanged and adds exactly one well-formed message, or one field under the caller's tag (1 to 15), that means what the caller asked for: session reset with or without keeping it open, statements, prepared statements, inserts with any rows, updates with any assignments, deletes, expectation blocks with any list of no-error and field-exists conditions, capability settings, authentication messages (which stand alone and use only the buffer's spare room), octets and strings with any content type or collation, operators and function calls of any name with any operands, columns, variables, placeholders and durations. "
 "Given something it cannot encode it returns an error, and what the buffer held is still unchanged; it never modifies its arguments. slice.ForAppend, slice.Insert and slice.Allocate make exactly the room asked for, losing and overlapping nothing.",
 ["inputs", "programs"], "all encoders, arguments of all lengths, every buffer length and capacity, every sequence of encoders on one buffer",
 "The tests encode a few short values into a nil buffer; several encoders (field-exists conditions, reset, placeholders, function calls, authentication) are not reached by any test, and not all by the builder either.",
 ["xproto/xproto.go", "xproto/any.go", "xproto/expr.go", "xproto/expect.go", "xproto/insert.go", "xproto/update.go", "xproto/prepare.go", "xproto/authentication.go", "xproto/protobuf.go", "xproto/scalar.go", "slice/slice.go"],
 [("precomputed sizes and in-place header insertion", "xproto/expr.go AppendExprOperator, xproto/insert.go AppendInsertRow, slice/slice.go"), ("varints written at full width and cut", "xproto/*.go")],
 [], ["slices returned by the encoders"])

prop("C19", "Collation and error-code names mean what they mean to MySQL",
 "Each collation constant is the number MySQL gives to the collation of that name, and that number reaches the server when a string is sent with it; String gives for every number the collation's MySQL name, or Collation(n) for a number n that is none, and IsBinary holds for the collation binary only. Each error-code constant is the code of the MySQL error of that name, a server's error answer with any of these codes carries exactly that code, and IsFatal says whether the server called it fatal.",
 ["inputs"], "all collation constants, all numbers as collations, all error-code constants with either severity",
 "No test looks at the collation or errs packages; a test can only sample their 1,400 constants.",
 ["collation/collation.go", "netx/connection/errs/codes.go", "netx/connection/errors.go", "xproto/any.go", "xproto/expr.go"],
 [("names cut out of one long string by offset", "collation/collation.go collationMap"), ("numbers with gaps", "collation/collation.go, netx/connection/errs/codes.go")],
 [], ["values of the exported constants", "results of Collation.String and IsBinary", "collation in the bytes sent", "responses returned by Send"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
