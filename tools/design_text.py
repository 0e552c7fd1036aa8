# per property: what is compared with what, and why the tests of the repository cannot settle it
TEXT = {
"C01": ("The harness plays the client. Every message is assembled from parts (claimed user, gs2 header, nonce, proof key, proof message, extensions, spelling) and the reference RFC 5802 implementation (`refscram.rs`) decides from the same parts whether the proof is right *for the user named, the credential stored and the messages exchanged*. Compared: outcome class, the `e=`/`v=` message, whether and with which names validation ran, and the validated value.",
        "An acceptance bug hides in one combination (a truncated proof, a proof over somebody else's message, an escape that aliases two users); the tests contain one accepting and a few refusing transcripts."),
"C02": ("The harness plays the server against the real client; the reference decides which server-first messages may be answered and which final messages may complete. Compared: outcome class, the completeness of the exchange, and whether cached keys were handed out (and that they are the right ones). The tree `keys` lets the application answer the three key requests (cached keys, salted password, password) with right, wrong, empty and odd values in every combination: whatever the source of the key, the server's signature decides.",
        "As C01, for the other side. The tests contain one good and one bad signature."),
"C03": ("Real client against real server; every message of both is predicted by the reference from the nonces it contains. Then each end alone against the reference in the other role, so that an error both ends share is seen; reference clients and servers that send optional extensions, which the signatures must cover, take part. Compared: all bytes, validation context (names, authorization identity), success of both.",
        "Interoperability must hold for all values; escaping, hash block sizes, empty values and leading zero bytes matter, and the tests use one RFC example per hash."),
"C04": ("Two real endpoints with a man in the middle. The oracle knows only what was sent and what was delivered: a client may finish only if it received what the server sent in answer to what the client sent; a server may validate only for the nonce, name and header the client really sent.",
        "All edits at all positions of all messages; no test tampers at all."),
"C05": ("The expected flag, binding name, binding data and refusal are computed from RFC 5802 section 6 and the configuration; the server side recomputes the channel-binding input the client ought to have sent. Every source of the data (an answer of the callback, data of the protocol, the default) and names of binding types that are unusual but legal take part.",
        "Downgrades need a combination of offers, flags and data. The tests cover no -PLUS exchange with differing data."),
"C06": ("The set of admissible mechanisms is recomputed by name from the offers and the enabled set; the application's preference is replayed over it. Compared: the mechanism started, the error if none, and the calls made to the preference and binding hooks.",
        "Any order, repetition or unknown name in the offer may matter; the tests try a handful of lists."),
"C07": ("Expected list computed from the table of mechanisms (`mechs.rs`), never from the library. A second checker crate (`mc-static`) is built with the link-time registry.",
        "All 2^13 compositions; the tests check one."),
"C08": ("A splitter written from RFC 4616 plus SASLprep from the `stringprep` crate (the crate's tables are taken as the reference, not the library's use of it).",
        "All messages over an alphabet that contains every class of character SASLprep distinguishes."),
"C09": ("Reference two-challenge automaton, byte for byte.", "Passwords that are not UTF-8, empty, or contain NUL; order of the two requests."),
"C10": ("Reference parser of the XOAUTH2 first message and automaton of the error exchange.", "Every token string of the syntax, all verdict/answer combinations."),
"C11": ("Reference parser of RFC 7628 messages (gs2 header, key/value list) and serde_json's untyped parser for the error object.", "As C10; the fix commits show what the tests left open."),
"C12": ("The identity function on UTF-8 strings.", "All short byte strings, so all malformed encodings."),
"C13": ("No oracle beyond: returns within the watchdog's 30 s, does not unwind, does not abort, allocates no more than 1 GiB (`alloc_guard.rs`); executions run in child processes so that an abort is observed and attributed. A parallel honest exchange of the same configuration must succeed after it.",
        "Parser panics sit on specific byte strings at specific states."),
"C14": ("The points that need a message are listed from the RFCs per mechanism; a twin exchange without the starved steps is the reference for everything that follows.",
        "Histories with starved steps at every point are no part of the tests."),
"C15": ("Validation calls are counted by the harness's application; the expected value is the one it set.", "All mechanisms, all histories, including those which fail late."),
"C16": ("A driver that looks only at the results of `step` and `are_we_first`; the writer independently records what was written. Oracle: alternation, termination, and equality of report and record; the helper methods of the result (`State::is_finished`, `has_sent_message` …) must agree with the variant.", "The truth of a report depends on the message received and on the verdict."),
"C17": ("The bytes of a twin step with a well-behaved writer (deterministic parts) or the reference (random parts); an `Ok` step must have delivered all of it, for every sequence of short, interrupted, zero and failing writes.", "The explorer decides the result of every single call of the writer; the tests have one split writer."),
"C18": ("The twin exchange through the plain step and a base64 codec of the checker.", "All texts of up to 4 characters at every stage."),
"C19": ("A model of the request protocol (what is asked, which answer comes first) runs along with every sequence of answers. The custom mechanism MC-PROBE issues every kind of request, so the framework is explored separately from the mechanisms.", "Sequences of answers, typed dispatch and context lookups are combinatorial."),
"C20": ("The request log of the undisturbed exchange names the points; at each the application fails or stays silent. A step that had a required request fail must return the error (identity of the error value is compared), with no validation and no progress. `defaults` holds the default methods of the callback traits to the same rule; the one optional call, the SCRAM client's offer of reusable keys, is excepted.", "Every request of every mechanism in every course of the exchange."),
"C21": ("The reference for each exchange is the same exchange alone *in a fresh process*; interleavings are decided by the explorer, threads are passed a baton at every call out of the library so that schedules are deterministic and enumerable. The kinds of session differ in mechanism, credentials, offers and channel binding, so that anything remembered from one session to the next meets a session it does not fit.", "Schedules, by definition."),
"C22": ("The definition, over bytes.", "All byte strings up to the bound."),
"C23": ("A reference of RFC 4752's layer negotiation over a simulated GSS-API (`fakegss.rs`; its functions take precedence over the system library's when the checker is linked): contexts of 1 to 6 tokens with all flags, per-message protection with sequence numbers, and failures injected at every call. The sizes announced and the strength of the layer chosen are part of the comparison.", "There is no test of GSSAPI at all; a KDC is not needed."),
"C24": ("Whether a layer is due is known from the mechanism and, for GSSAPI, from the reference of C23. The exchange disturbed by layer calls is compared with the undisturbed one; custom mechanisms with layers of their own check that the session passes data and results through.", "Layer calls at every point, in every history."),
"C25": ("Nonces of all sessions of a history are collected and compared; alphabet and length are checked. Choice arity never depends on random content, so the exploration itself is deterministic.", "Freshness across sessions, threads and processes is a property of histories. The quality of the generator is statistical and stays out of scope."),
"C26": ("Expected offers from the mechanism table; exchanges against servers that know the user, another user, another password or nobody.", "All sets of offers and near-miss credentials."),
}

MISSED = {
 "gssapi-encode-disturbs": "`gssapi` tree of C24 compares with the exchange without layer calls",
 "scram-cached-unverified": "`keys` tree in C02",
 "xoauth2-refused-empty": "empty error text in C10 `server-verdict`",
 "scram-plus-remembered": "the kinds of session in C21 that differ in whether a -PLUS mechanism is offered",
 "gssapi-size": "the announced message size is judged in C23 `agreement` (and stated)",
 "oauthbearer-silent-end": "deadlock rule in C16",
 "oauthbearer-value-equals": "`values` trees in C08-C12",
 "scram-cb-empty-protocol": "empty binding data in C05",
 "select-first-sixteen": "`long` tree in C06",
 "scram-iterations-u16": "`counts` tree in C03",
 "gssapi-prefer-integrity": "the strongest common layer is demanded (statement and oracle of C23)",
 "anonymous-silent-client": "rule in C16: a client that goes first must not end in silence",
 "cb-remembered": "channel binding decided per session in C21",
 "credentials-same-authzid": "related credentials in C26 `offers`, `orders`",
 "scram-can-cb-512": "planted for C04, where it was not reported; it breaks C05, whose check reports it",
 "xoauth2-verdict-cache": "kinds of session in C21 with the same token and another verdict",
 "credentials-long-authzid": "`values` tree in C26",
 "oauthbearer-kv-sorted": "`lists` tree in C11",
 "scram-salt-panic": "`lengths` tree in C13",
 "prefer-u16": "`priorities` tree in C06",
 "select-long-name": "`name-lengths` tree in C06",
 "server-first-sixteen": "`many` tree in C07",
 "login-name-kept": "C14 also compares what validation is shown",
 "plain-validate-twice": "`relations` tree in C15",
 "scram-unknown-empty-password": "`unknown` tree in C01",
 "select-offers-256": "`very-long` tree in C06",
 "oauthbearer-key-case": "registered field names in every case in C11 `lists`",
 "vectored-would-block-done": "`failures` in C17: every kind of error a writer can have",
 "scram-unescape-thread": "`hostile` in C21: every mangled message of an exchange before every kind of exchange of the same mechanism; kinds with escaped names",
 "scram-salt-context-64": "`told-values` in C19",
 "select-ties-reordered": "a preference in C06 that refuses what would be best",
 "credentials-empty-password": "`empty` tree in C26",
 "login-empty-password-silent": "`values` trees in C15 and C16",
}
