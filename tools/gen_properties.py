#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place to edit titles, statements and anchors."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

SC = ["src/mechanisms/scram/client.rs", "src/mechanisms/scram/server.rs", "src/mechanisms/scram/parser.rs",
      "src/mechanisms/scram/tools.rs", "src/mechanisms/scram/mechinfo.rs"]

p("C01", "SCRAM server authenticates only a client that proves the right credential",
  "A SCRAM server session runs the application's validation, and yields a validated user, only if the client's final message carries a proof computed from the stored credential of exactly the user named in this exchange, over exactly this exchange's nonces and messages. "
  "Every other client behaviour (wrong password, other user's credential, replayed, altered, truncated or reordered messages, a mandatory extension, unknown user) ends in an error or a SCRAM error message, without validation having run.",
  ["inputs", "histories"],
  "every hash (SHA-1/256/512), plain and channel-binding variants, every client that follows or deviates from the protocol in any one or two fields of its messages, including replays from other sessions of the same configuration",
  "No test drives the SCRAM server at all; the property quantifies over adversarial client messages and over replay across sessions, which examples cannot cover.",
  SC, [("client-final handling: nonce, channel-binding and proof comparison", "src/mechanisms/scram/server.rs"),
       ("signature computation over the transcript", "src/mechanisms/scram/tools.rs")],
  ["Session::step result and output", "SessionCallback::validate invocations", "Session::validation"],
  [("server state", "waiting for client-first / client-final / finished", "src/mechanisms/scram/server.rs")])

p("C02", "SCRAM client completes only with a server that proves the credential",
  "A SCRAM client session reports a finished exchange, and hands reusable keys to the application, only if the server's final message carries the correct server signature for this exchange. "
  "A server nonce that does not strictly extend the client's nonce, a missing, zero or non-numeric iteration count, a malformed salt or a mandatory extension is refused before any proof is sent, and a wrong signature or a server-reported error is reported as an error.",
  ["inputs", "histories"],
  "every hash and channel-binding variant, every server that follows or deviates from the protocol in any one or two fields of its two messages, including replays of recorded sessions",
  "No test drives the SCRAM client against a server; mutual authentication is a claim about all messages a malicious server can send.",
  SC, [("server-first checks before the proof is produced", "src/mechanisms/scram/client.rs"),
       ("server signature comparison", "src/mechanisms/scram/client.rs")],
  ["Session::step result and output", "requests for the cached-key action"],
  [("client state", "initial / sent client-first / sent client-final", "src/mechanisms/scram/client.rs")])

p("C03", "Honest SCRAM exchanges succeed and match RFC 5802 byte for byte",
  "For every user name, authorization identity, password (those already in SASLprep form), salt, iteration count, hash and form of client credential (password, salted password, cached keys), a client and a server that share the credential complete the exchange: the server validates once, seeing exactly the user name and authorization identity the client's application supplied, and the client verifies the server. "
  "Every message either side sends equals what RFC 5802/7677 prescribe for the same inputs and nonces.",
  ["inputs", "configurations"],
  "all user names/authzids/passwords (including those needing escaping, non-ASCII, long), salts of any length, iteration counts, three hashes, three client credential forms, with and without channel binding",
  "The tests cover neither a complete SCRAM exchange nor names that need escaping; the claim ranges over all credentials.",
  SC + ["src/mechanisms/scram/properties.rs"],
  [("client-first / client-final construction", "src/mechanisms/scram/client.rs"), ("server-first / server-final construction", "src/mechanisms/scram/server.rs"),
   ("name escaping and unescaping", "src/mechanisms/scram/parser.rs"), ("key derivation", "src/mechanisms/scram/tools.rs")],
  ["bytes written by Session::step", "Context passed to SessionCallback::validate", "Session::validation"])

p("C04", "Tampering with a SCRAM exchange in transit is always detected",
  "If anything between an honest SCRAM client and an honest server changes, drops, duplicates, reorders, truncates or extends any message, then the client does not report success unless it received exactly what the server sent in answer to exactly what the client sent, and the server does not validate unless all messages before its final one arrived unmodified. "
  "In particular channel-binding flags, authorization identity, salts, iteration counts and protocol extensions are covered.",
  ["inputs", "histories"],
  "every single-byte substitution, insertion, deletion and truncation at every position of each of the four messages, every structured field-level rewrite, and message drop/duplicate/replay/reorder",
  "The tests contain no man-in-the-middle; the guarantee is about all modifications of all messages.",
  SC, [("transcript covered by the proof and the server signature", "src/mechanisms/scram/server.rs, src/mechanisms/scram/client.rs"),
       ("strict message parsing", "src/mechanisms/scram/parser.rs")],
  ["Session::step results on both ends", "SessionCallback::validate invocations"])

p("C05", "Channel binding is enforced and downgrades are refused",
  "With channel binding in use a server accepts the exchange only if both ends supplied the same data for the binding type the client named; an exchange under a -PLUS mechanism never completes without channel binding, and a client saying it could bind but believes the server cannot is refused by a server that can. "
  "The client's flag truthfully says whether binding is used, unsupported by the client, or supported but not offered by the server; binding data from the protocol takes precedence over the application's, and absent data is an error.",
  ["configurations", "inputs", "histories"],
  "all combinations of enabled/offered plain and -PLUS mechanisms on both sides, binding types, binding data (equal, different, missing, empty, prefix), source (protocol or application), overrides, and hostile flag rewrites",
  "Only the flag parser and the mere selection of -PLUS are tested; no exchange with binding data is ever run.",
  SC + ["src/session.rs", "src/channel_bindings.rs", "src/registry.rs"],
  [("gs2 flag and header construction and comparison", "src/mechanisms/scram/client.rs, src/mechanisms/scram/server.rs"),
   ("channel-binding data lookup", "src/session.rs"), ("flag chosen at selection", "src/mechanisms/scram/mechinfo.rs")],
  ["bytes written by Session::step", "Session::step results", "SessionCallback::validate invocations"])

p("C06", "A client only uses a mechanism both offered and enabled, chosen by preference",
  "A client session is only ever started with a mechanism that the server offered and that the configuration enables for clients; channel-binding variants only if the application enabled channel binding. "
  "Among those the one the application's preference picks (by default the highest-ranked) is used, whatever the order or repetition of the offers and whatever unknown names they contain; if there is none, or the preference refuses all, starting fails.",
  ["inputs", "configurations"],
  "all subsets of the supported mechanisms as configuration, all subsets and permutations (with duplicates, unknown and look-alike names) as offers, binding on/off, default and arbitrary preference orders including refusal",
  "The two selection tests use one configuration and two offer orders each for the -PLUS preference only.",
  ["src/registry.rs", "src/mechanisms/scram/mechinfo.rs", "src/sasl.rs", "src/config.rs", "src/callback.rs"],
  [("selection fold over registered mechanisms", "src/registry.rs"), ("SCRAM selectors", "src/mechanisms/scram/mechinfo.rs"), ("preference callback", "src/callback.rs")],
  ["SASLClient::start_suggested", "Session::get_mechname", "first message of the session"])

p("C07", "A server offers and starts exactly the configured mechanisms",
  "A server lists exactly the configured mechanisms that have a server side, and a session can be started for exactly those, by exact name; any other name is refused with a no-shared-mechanism error. "
  "The started session speaks the named mechanism on the server side, and the ready-made configurations (defaults, credentials) enable exactly the mechanisms their documentation states.",
  ["inputs", "configurations"],
  "all subsets and orders of the supported mechanisms as configuration and all requested names (configured, supported but not configured, prefixes, extensions, different case, unknown)",
  "No test starts a server session by name through a configuration or lists the available mechanisms.",
  ["src/sasl.rs", "src/config.rs", "src/registry.rs", "src/builder.rs"],
  [("lookup by name and server-side filter", "src/sasl.rs"), ("registries", "src/registry.rs")],
  ["SASLServer::get_available", "SASLServer::start_suggested", "Session::get_mechname"])

p("C08", "PLAIN delivers exactly the client's credentials and rejects malformed messages",
  "A PLAIN client sends exactly authorization identity, NUL, user name, NUL, password as supplied, and fails if the user name or password is empty or any field contains NUL. "
  "A PLAIN server hands to validation precisely the three fields of a well-formed message (user name and UTF-8 passwords SASLprep-normalised, authorization identity and non-UTF-8 passwords verbatim) exactly once, and rejects every other message with an error without running validation.",
  ["inputs"], "every authorization identity, user name and password byte string, and every message byte string",
  "Tests cover a handful of client strings; the PLAIN server has no test at all.",
  ["src/mechanisms/plain/client.rs", "src/mechanisms/plain/server.rs", "src/mechanisms/plain/mechinfo.rs"],
  [("client NUL/empty checks", "src/mechanisms/plain/client.rs"), ("server message split and normalisation", "src/mechanisms/plain/server.rs")],
  ["bytes written by Session::step", "Context passed to SessionCallback::validate"])

p("C09", "LOGIN delivers exactly the client's user name and password",
  "A LOGIN server asks first for the user name and then for the password, and after the second answer runs validation exactly once with exactly the user name and password bytes received; a user name that is not UTF-8 is rejected without validation. "
  "A LOGIN client answers the first challenge with exactly the user name and the second with exactly the password, and is finished only after the password.",
  ["inputs", "histories"], "every user name and password, every challenge text, and interleaved missing inputs",
  "One test runs the client with one user name and password; the server has no test.",
  ["src/mechanisms/login/client.rs", "src/mechanisms/login/server.rs"],
  [("three-state server", "src/mechanisms/login/server.rs"), ("two-state client", "src/mechanisms/login/client.rs")],
  ["bytes written by Session::step", "Context passed to SessionCallback::validate"])

p("C10", "XOAUTH2 carries user, token and verdict faithfully",
  "An XOAUTH2 client sends exactly the user and bearer token supplied; the server passes exactly those to the application and to validation (once), finishes if the application accepts, and otherwise sends the application's error text verbatim and finishes after the client's answer. "
  "The client hands a non-empty server error verbatim to the application and fails if it is not handled, treats an absent or empty answer as the end of the exchange, and the server rejects malformed messages without validation.",
  ["inputs", "histories"], "every user, token and error text free of the field delimiter, both verdicts, handled or unhandled errors, every malformed message in the bounded space",
  "Tests use one user, one token and one error text, and never connect client and server.",
  ["src/mechanisms/xoauth2/client.rs", "src/mechanisms/xoauth2/server.rs"],
  [("message construction and parsing", "src/mechanisms/xoauth2/client.rs, src/mechanisms/xoauth2/server.rs"), ("error sub-dialogue", "src/mechanisms/xoauth2/server.rs")],
  ["bytes written by Session::step", "Context passed to callbacks"])

p("C11", "OAUTHBEARER carries identity, token, fields and verdict faithfully",
  "An OAUTHBEARER client sends its authorization identity, key/value fields and bearer token as RFC 7628 prescribes; the server passes exactly the values the client's application supplied to its application and to validation (once), finishes if the application accepts, and otherwise sends the application's error as JSON and finishes after the client's answer. "
  "The client hands exactly the server's error values to its application and fails if they are not handled or not valid; malformed messages are rejected without validation.",
  ["inputs", "histories"], "every authorization identity (including ',' and '='), key/value list, token and error (including characters JSON must escape), both verdicts, every malformed message in the bounded space",
  "Tests use one hand-written message and never connect client and server.",
  ["src/mechanisms/oauthbearer/client.rs", "src/mechanisms/oauthbearer/server.rs", "src/mechanisms/oauthbearer/parser.rs", "src/mechanisms/oauthbearer/properties.rs"],
  [("message construction", "src/mechanisms/oauthbearer/client.rs"), ("message parsing", "src/mechanisms/oauthbearer/parser.rs"), ("error sub-dialogue", "src/mechanisms/oauthbearer/server.rs")],
  ["bytes written by Session::step", "Context passed to callbacks"])

p("C12", "ANONYMOUS and EXTERNAL pass the token or identity through unchanged",
  "An ANONYMOUS or EXTERNAL client sends exactly the trace token or authorization identity supplied, or an empty message if none, in one step. "
  "The server runs validation exactly once with exactly the text received (empty if nothing was received) and finishes, and rejects text that is not UTF-8 without validation.",
  ["inputs"], "every token/identity and every received byte string, absent input included",
  "Tests use four inputs per side and never connect the two sides.",
  ["src/mechanisms/anonymous/client.rs", "src/mechanisms/anonymous/server.rs", "src/mechanisms/external/client.rs", "src/mechanisms/external/server.rs"],
  [("single-step pass-through", "src/mechanisms/external/server.rs, src/mechanisms/anonymous/server.rs")],
  ["bytes written by Session::step", "Context passed to SessionCallback::validate"])

p("C13", "No message from the peer can crash or hang a session",
  "Whatever bytes the other party sends, at whatever point of the exchange, on either side of any mechanism, a step returns a state or an error: it never panics, never loops forever and never aborts the process. "
  "A message that makes one exchange fail has no effect on any other session.",
  ["inputs", "histories"],
  "every mechanism, side and reachable protocol state; all byte strings up to a length bound over a grammar-derived alphabet, and every truncation, deletion, insertion, substitution and field swap of valid messages",
  "Tests feed two or three malformed inputs to two mechanisms; the claim is about all inputs in all states.",
  ["src/mechanisms/scram/parser.rs", "src/mechanisms/scram/client.rs", "src/mechanisms/scram/server.rs", "src/mechanisms/plain/server.rs",
   "src/mechanisms/oauthbearer/parser.rs", "src/mechanisms/xoauth2/server.rs", "src/mechanisms/login/server.rs", "src/mechanisms/gssapi/server.rs", "src/session.rs"],
  [("message parsers", "src/mechanisms/scram/parser.rs, src/mechanisms/oauthbearer/parser.rs")],
  ["Session::step / step64 return, panic or time-out"])

p("C14", "A step without required input fails cleanly and leaves the exchange intact",
  "When a mechanism needs a message from the peer and the step is called without one, the step reports the missing-input error, writes nothing and runs no validation; it never claims that the exchange is running or finished. "
  "Calling it again with the message continues the exchange as if the empty call had never happened, however often it happened.",
  ["histories"], "every mechanism and side, every reachable protocol state that needs peer data, any number of spurious calls inserted at any subset of the steps",
  "No test calls a step without required input and then continues.",
  ["src/mechanism.rs", "src/mechanisms/scram/client.rs", "src/mechanisms/scram/server.rs", "src/mechanisms/login/server.rs", "src/mechanisms/plain/server.rs",
   "src/mechanisms/xoauth2/server.rs", "src/mechanisms/oauthbearer/server.rs", "src/mechanisms/gssapi/server.rs", "src/mechanisms/gssapi/client.rs"],
  [("input check before the state is consumed", "src/mechanisms/*/")],
  ["Session::step result", "bytes written", "later behaviour of the same session"])

p("C15", "Server validation runs exactly once and its value reaches the protocol",
  "A server-side exchange that completes without a protocol error runs the application's validation exactly once, before reporting that it is finished; an exchange that fails does not, and clients never do. "
  "The value the application sets for the protocol's validation type is what the protocol extracts, once; the first value set wins, values of other types are ignored, and an error from validation aborts the exchange with that error instead of finishing.",
  ["histories", "inputs", "configurations"],
  "every mechanism, successful and failing exchanges, every behaviour of the validation callback (sets nothing, once, repeatedly, other types, conditionally, fails) and every protocol validation type",
  "Tests drop the validation outcome; no test extracts a value from a session.",
  ["src/validate.rs", "src/session.rs", "src/typed.rs", "src/mechanisms/scram/server.rs", "src/mechanisms/gssapi/server.rs"],
  [("type-checked, first-wins assignment", "src/validate.rs"), ("validation invocation by each server mechanism", "src/mechanisms/*/server.rs")],
  ["SessionCallback::validate invocations", "Session::validation"])

p("C16", "Step results tell the truth about messages and completion",
  "The side that must speak first is the one the session says goes first; a step that reports no message has written nothing, and every byte written is reported as a message to be sent. "
  "A client and a server driven only by these results always exchange messages alternately, never deadlock, and both report the end of the exchange within the number of messages the mechanism defines.",
  ["histories", "configurations"],
  "every mechanism, honest and failing exchanges (wrong credentials, refused tokens, unknown users), and both ways a protocol may signal the end (empty message or no message)",
  "Tests never drive two sessions against each other by their reported states.",
  ["src/session.rs", "src/mechanism.rs", "src/mechanisms/*/client.rs", "src/mechanisms/*/server.rs"],
  [("state and message-sent results", "src/session.rs"), ("first side of each mechanism", "src/mechanisms/*/mechinfo.rs")],
  ["Session::are_we_first", "State and MessageSent returned by Session::step", "bytes written"])

p("C17", "A step that succeeds has delivered its whole message to the writer",
  "Whatever the output writer does (accepts any number of bytes per call, is interrupted, accepts nothing, or fails at any call), a step that returns success has written exactly the complete message in order, the same bytes as with a well-behaved writer: short and interrupted writes are continued. "
  "If the writer cannot take the whole message, the step returns an error rather than reporting a message as sent.",
  ["fault_sequences"], "every mechanism step and security-layer call that writes, plain and base64, and every sequence of short, zero, interrupted and failing writes up to the bound",
  "One unit test splits writes at one length; writers that accept nothing, are interrupted or fail are never tried.",
  ["src/vectored_io.rs", "src/session.rs", "src/mechanisms/scram/client.rs", "src/mechanisms/scram/server.rs"],
  [("vectored write loop", "src/vectored_io.rs"), ("base64 output", "src/session.rs")],
  ["Session::step and step64 results", "bytes accepted by the writer"])

p("C18", "The base64 step is exactly the plain step with base64 on both sides",
  "A base64 step accepts exactly the canonical padded standard base64 of what the plain step accepts, returns the same result, and writes exactly the standard base64 encoding of what the plain step writes. "
  "Input that is not valid base64 is refused with an error, writes nothing, and leaves the exchange where it was.",
  ["inputs", "histories"], "every mechanism and protocol state, all message lengths modulo three and around buffer sizes, all short non-base64 strings, wrong padding, trailing bits, line breaks and URL-safe alphabets, at every step of an exchange",
  "No test calls the base64 step.",
  ["src/session.rs"], [("base64 wrapping of input and output", "src/session.rs")],
  ["Session::step64 vs Session::step results and bytes"])

p("C19", "Property requests reach the application typed, and the first answer wins",
  "The application answers a request only through the property actually requested: answers for other properties are ignored, exactly the first matching answer is used by the mechanism and used once, and further answers are neither evaluated nor have any effect. "
  "An action request counts as handled only if the application took its value; context lookups return exactly the values the mechanism or protocol provided for that property and nothing for others.",
  ["programs", "histories"], "all callback programs up to a length bound over the request operations (satisfy, satisfy lazily, take action, type test, context lookup, early error) for matching and non-matching properties, and all provider combinations",
  "Doc tests show single usages; the interplay of repeated, lazy and mismatching operations is not tested.",
  ["src/callback.rs", "src/session.rs", "src/typed.rs", "src/context.rs", "src/property.rs"],
  [("type-erased request", "src/callback.rs"), ("request issue and evaluation", "src/session.rs"), ("provider lookup", "src/context.rs")],
  ["values seen by a mechanism", "results of satisfy/satisfy_with/get_action/is", "Context::get_ref"])

p("C20", "A failing or silent application callback aborts the exchange",
  "If the application returns an error to any request of any mechanism, or does not supply a property the mechanism requires, the step fails with that error (or a missing-property error) and the session does not report progress, completion or validation. (The one exception is the SCRAM client's offer of reusable keys after success, which the application is free to ignore.) "
  "No credential the application did not supply is ever invented: optional properties left unanswered are treated as absent, never as another value.",
  ["fault_sequences", "histories"], "every mechanism and side, each callback invocation of an exchange failing in each possible way (every error kind, silence, explicit no-value), alone and in pairs",
  "No test makes a callback fail or stay silent part-way through an exchange.",
  ["src/session.rs", "src/callback.rs", "src/mechanisms/*/client.rs", "src/mechanisms/*/server.rs"],
  [("error propagation from callback to step", "src/session.rs")],
  ["Session::step result", "SessionCallback::validate invocations"])

p("C21", "Sessions sharing a configuration do not influence each other",
  "Any number of client and server sessions created from one shared configuration behave, whatever the interleaving of their steps and of the callbacks running inside them, exactly as each would alone. "
  "In particular credentials, nonces, validation values, mechanism choice and errors of one session are never visible in another.",
  ["schedules", "histories"], "all interleavings, at step, callback and write granularity and up to a preemption bound, of two and three sessions with different users, mechanisms and outcomes on threads sharing one configuration; sequential reuse of a configuration for many sessions",
  "All tests run a single session per configuration on one thread.",
  ["src/session.rs", "src/sasl.rs", "src/config.rs", "src/registry.rs", "src/mechanisms/*/"],
  [("per-session mechanism state, shared immutable configuration", "src/session.rs, src/config.rs")],
  ["per-session trace of step results, bytes (modulo fresh nonces) and callback data"])

p("C22", "Mechanism names are validated exactly",
  "A byte string is accepted as a mechanism name exactly if it is non-empty and consists only of upper-case ASCII letters, digits, hyphen and underscore; otherwise the error says it is empty, or names the first offending byte and its position. "
  "Accepted names compare and print as exactly the given text, through every way of constructing or comparing them.",
  ["inputs"], "all byte strings up to the length bound over all 256 byte values, and each byte value at each position of longer names",
  "The test tries a few names; the claim ranges over all byte strings.",
  ["src/mechname.rs"], [("name parser", "src/mechname.rs")], ["Mechname::parse / TryFrom", "Mechname::as_str / as_bytes / Eq / Display"])

p("C23", "GSSAPI negotiates only a layer acceptable to both sides and uses it",
  "A GSSAPI exchange completes only if the GSS context was established and client and server agree on one security layer, the strongest that is acceptable to both applications and supported by the context; otherwise it fails. "
  "After completion both ends report a security layer exactly if integrity or confidentiality was agreed, data encoded by one end is protected at exactly the agreed level and decodes to the same bytes at the other, and the server has validated exactly once. Each end announces layers only from those acceptable to it, and a message size of zero exactly if no layer was agreed or offered.",
  ["inputs", "configurations", "histories"], "all combinations of acceptable layers on both sides and of context capabilities, context establishment in one to several rounds, and all layer offers and selections a hostile but authenticated peer can send",
  "There is no GSSAPI test at all (it needs a KDC).",
  ["src/mechanisms/gssapi/client.rs", "src/mechanisms/gssapi/server.rs", "src/mechanisms/gssapi/properties.rs"],
  [("layer offer and selection", "src/mechanisms/gssapi/server.rs, src/mechanisms/gssapi/client.rs")],
  ["Session::step results and bytes", "Session::has_security_layer / encode / decode", "SessionCallback::validate invocations"])

p("C24", "No security layer is ever reported or used unless one was negotiated",
  "A session of a mechanism without security layers, and any session before or without a negotiated layer, reports that it has none; protecting or unprotecting data then fails with the no-security-layer error, writes nothing and does not disturb the exchange. "
  "In particular data is never passed through unprotected by the security-layer calls.",
  ["histories", "inputs"], "every mechanism and side, every reachable state including failed and finished exchanges, data of several sizes, calls inserted at every point of an exchange",
  "No test calls the security-layer methods.",
  ["src/mechanism.rs", "src/session.rs", "src/mechanisms/gssapi/client.rs", "src/mechanisms/gssapi/server.rs"],
  [("default security layer methods", "src/mechanism.rs")], ["Session::has_security_layer / encode / decode"])

p("C25", "SCRAM nonces are well-formed and never reused",
  "Every SCRAM session, client or server, contributes a fresh unpredictable nonce: full length, printable, free of commas, different from that of every other session of the process and not derived from the peer's or from earlier nonces. "
  "The server's nonce extends the client's, and the client's final message repeats the combined nonce.",
  ["histories", "schedules"], "all histories of client and server sessions up to the bound, over all hashes, sequential and on several threads, with equal and different inputs",
  "No test inspects a nonce.",
  ["src/mechanisms/scram/tools.rs", "src/mechanisms/scram/client.rs", "src/mechanisms/scram/server.rs"],
  [("nonce generation", "src/mechanisms/scram/tools.rs")], ["nonces in messages written by Session::step"])

p("C26", "Ready-made credential configurations authenticate as exactly that user",
  "A client configuration built from an optional authorization identity, user name and password offers exactly the password mechanisms that can carry them (without a mechanism unable to carry an authorization identity when one is given), never one that needs other credentials. "
  "Whichever of them the server selects, a server knowing the credential validates exactly that user and authorization identity, and a server knowing another password never does.",
  ["inputs", "configurations"], "all user names/passwords/authorization identities of the bounded space, all subsets of mechanisms offered by the server",
  "One test uses such a configuration, with LOGIN only.",
  ["src/config.rs", "src/registry.rs"], [("credential callback", "src/config.rs"), ("credential registries", "src/registry.rs")],
  ["Session::get_mechname", "Context passed to the server's SessionCallback::validate"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
