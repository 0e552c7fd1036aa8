CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26".split()
NA = {}
TECH = {"": "stateless model checking of the real library: exhaustive enumeration of all inputs, answers and histories of a bounded space by replayed choice sequences, compared with an independent reference model"}
NOTE = {
 "C01": "all bounded client behaviours (every single-byte corruption, every structured forgery, all message sequences up to the depth, replays across sessions) against the real server",
 "C02": "all bounded server behaviours (every single-bit and single-byte corruption, every structured forgery, all message sequences up to the depth) against the real client",
 "C03": "all combinations of the value lists, up to the deviation bound, real client against real server and each against an independent RFC 5802 reference",
 "C04": "every single-byte edit and every field-level edit up to the deviation bound between two real endpoints",
 "C05": "all binding names and data up to the bound on both sides, all attacker strategies that keep the nonce, all downgrade messages",
 "C06": "all offers up to the length bound over the name alphabet, all enabled subsets up to the bound, all preference behaviours",
 "C07": "all registry compositions up to the bound, all near-miss names, also for the link-time registry in a separate build",
 "C08": "all field values over the byte alphabets and all messages up to the length bound",
 "C09": "all messages over the byte alphabets up to the length bound, all histories up to the depth",
 "C10": "all messages over the byte alphabets up to the length bound, all verdicts and answers",
 "C11": "all messages over the byte alphabets up to the length bound, all verdicts, fields and answers",
 "C12": "all messages over the byte alphabets up to the length bound",
 "C13": "all byte strings up to the length bound, all token strings, all mutations of honest messages at every state of every mechanism, long inputs with an allocation bound, all cached keys and stored records of every wrong length",
 "C14": "every missing input at every point of every exchange, every failing first request",
 "C15": "all ways to validate x all exchanges of all mechanisms x all validation types",
 "C16": "all exchanges of all mechanisms driven only by the reported results; all mutated messages",
 "C17": "all behaviours of the writer with up to 3 (thorough 4) deviations at every write call of every step of every mechanism",
 "C18": "all base64 texts up to 4 (thorough 5) characters and all edits of the honest text at every stage of every mechanism, all mixtures of plain and base64 steps",
 "C19": "every request of every mechanism under every style of answering and every sequence of answers up to the bound, every context lookup",
 "C20": "every request of every mechanism failing in every way, every subset of the properties left unanswered",
 "C21": "all interleavings of the steps of two and three exchanges of all kinds of the list; nesting in every callback; two and three threads switched at every call out of the library up to the preemption bound; reference is each exchange alone in a fresh process",
 "C22": "every byte string up to the length bound over the class alphabet, every single byte at every position of long names, every constructor",
 "C23": "all layers x flags x context lengths, every final token and offer over the octet, length and forgery bounds, every edit, every failing GSS call, all data histories up to the depth, over a simulated GSS-API",
 "C24": "layer calls at every point of every exchange of every mechanism on both sides, up to the bound per point",
 "C25": "all histories of sessions up to the bound in one process, across threads, and across processes; statistical quality of the generator is outside this technique",
 "C26": "all sets of offers, all credentials of the lists against all kinds of servers, all single edits of the credential, all histories of one configuration up to the depth",
}
TEXT = "All checks execute the library built from /repo's working tree; see DESIGN.md."
