#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism])))
M="modsecurity/"; V="modsecurity/variables/"; A="modsecurity/actions/"; O="modsecurity/operators/"; T="modsecurity/transforms/"; S="seclang/"; PA="seclang/parser/"

prop("C01","A rule acts exactly when one of its target values satisfies it",
"""A rule's actions run if and only if at least one value designated by its target list, after every one of its
transformations has been applied in the listed order, satisfies its operator (or, when the operator is negated with !, fails it);
a rule whose targets designate no value never acts. On a match each of the rule's actions runs exactly once, however many values match;
otherwise none of them runs.""",
["programs","inputs"],
"every rule (targets, transformation list, operator, negation, action list) and every request or response it is evaluated on",
"Tests evaluate three or four fixed rules on one-value requests; nothing samples many values, several targets, long transformation lists, or negation over several values.",
[M+"sec_rule.go",M+"transaction.go"],
[("rule evaluation: fetch, transform, match, act",M+"sec_rule.go SecRule.Do/Match/FetchAllTransformedVariables/TransformString"),("grouped action execution",M+"sec_rule.go ActionsExecute")],
[("rule definition","targets, transformations, operator, negation, actions",M+"sec_rule.go SecRule")])

prop("C02","A chain acts as one rule, only when every link matches",
"""The actions of a chain run only when the starter and every chained link match in the same evaluation, and then each link's actions
run exactly once, the starter's first and then the links' in order; if any link does not match, no action of any link runs.
A loaded configuration's chain consists of exactly the rules from the starter up to and including the first rule without the chain action,
and a configuration whose last chain lacks its final link is refused.""",
["programs","inputs"],
"all chain lengths, all combinations of matching links, all layouts of chained and plain rules and other directives in a configuration",
"The only chain test checks the number of links parsed from one text and never evaluates a chain.",
[M+"sec_rule.go",S+"rule_set.go"],
[("sub-rule conjunction",M+"sec_rule.go SecRule.Do"),("chain assembly while loading",S+"rule_set.go DireSet.AddSecLangString")],
[("chain parent","starter that collects the following rules",S+"rule_set.go chainParent")])

prop("C03","Phases and rules run once, in order; skip:n skips exactly n",
"""Each phase of a transaction runs at most once and in increasing order, and evaluates exactly the rules configured for that phase, in configured order and
each at most once; announcing a phase that was already reached or passed evaluates nothing.
`skip:n` (n is 1 when omitted) suppresses exactly the next n rules of the same phase, a chain counting as one rule, and nothing else.""",
["programs","histories"],
"all rule sets and all sequences of calls on a transaction, including repeated, omitted and out-of-order phases",
"Tests run one phase with one rule per transaction; skip is tested once, on an empty rule set.",
[M+"transaction.go",M+"sec_rule.go",A+"skip.go",S+"actions.go"],
[("phase gate",M+"transaction.go ProcessPhase/processPhase/JumpToPhase"),("rule cursor",M+"transaction.go Next/JumpTo"),("per-phase rule lists",M+"sec_rule.go SecRuleSet.AddRules/Process")],
[("phase and rule cursor","current phase, current rule, next rule",M+"transaction.go Transaction.currentPhase/currentRule/nextRule")])

prop("C04","allow suppresses exactly the announced scope",
"""A matching `allow` ends the current phase at once and suppresses every later phase before the logging phase; `allow:phase` suppresses only the rest of the
current phase; `allow:request` suppresses everything before the response-headers phase, or, in a response or later phase, only the rest of the current phase.
The first phase that is not suppressed, and those after it, run all their rules normally, and a transaction always terminates.""",
["programs","histories"],
"every placement of allow actions (phase, position, argument, several per transaction) and every continuation of the transaction",
"Tests call the action on a bare transaction and look at the phase number; no test continues the transaction and checks which rules still run.",
[A+"allow.go",M+"transaction.go"],
[("phase jump",A+"allow.go ActionAllow.Do"),("phase gate",M+"transaction.go ProcessPhase")],
[("phase cursor","phase to be processed next",M+"transaction.go currentPhase")])

prop("C05","Interceptions carry the right status, stop evaluation, are delivered once",
"""A matching `deny` makes the result disruptive with the status of the most recently run `status` action when that lies in 100-599 and with 403 otherwise, in whatever order
the rule lists the two actions; `block` has the effect of the rule set's default actions, and `pass` cancels a pending interception.
After an interception no further rule is evaluated until the caller collects the result, and each collection returns the pending interception
and every log entry since the previous collection, each exactly once and in order.""",
["programs","histories"],
"all rule sets built from disruptive, data and logging actions and all interleavings of phases with result collection",
"Tests run a single deny, status or pass on an empty transaction; none continues after an interception or collects results several times.",
[M+"transaction.go",M+"sec_rule.go",A+"deny.go",A+"status.go",A+"block.go",A+"pass.go",A+"log.go"],
[("action grouping (status before deny)",M+"sec_rule.go ActionsExecute"),("stop on interception",M+"transaction.go processPhase"),("collect and reset",M+"transaction.go Result")],
[("pending intervention","status, disruptive flag, log",M+"transaction.go Transaction.intervention"),("status slot","last status set",M+"transaction.go Transaction.Data")])

prop("C06","SecRuleEngine Off, DetectionOnly and On mean what they say",
"""While the engine is Off no rule is evaluated and no result is disruptive; in DetectionOnly every rule is evaluated and its non-disruptive actions run, but no result is ever disruptive;
On runs everything, and an engine whose mode was never set behaves as On.
The mode in force is the one set last, whether by directive or by call, and body-access directives likewise take effect by the last one given.""",
["configurations","programs","histories"],
"every sequence of mode settings, rule sets and traffic, including body-limit aborts",
"Tests only check that flags are stored on the engine; no test runs traffic with the engine Off or in DetectionOnly.",
[M+"engine.go",M+"transaction.go",M+"sec_rule.go",S+"rules.go"],
[("mode flags",M+"engine.go Engine.Enable"),("mode directive",S+"rules.go DireRuleEngine.Execute"),("mode enforcement",M+"transaction.go processPhase, "+M+"sec_rule.go ActionsExecute")],
[("mode","On / Off / DetectionOnly",M+"engine.go Engine.Enabled/DetectionOnly")])

prop("C07","Concurrent transactions are race-free and independent",
"""Any number of transactions processed concurrently against one shared engine and rule set, and engines built concurrently from one loaded configuration, involve no data race.
Each transaction yields exactly the status, disruptive flag, log and inspected values that it yields when it runs alone, whatever ran before or runs at the same time.""",
["schedules","histories"],
"all schedules of concurrent transactions and all orders of transactions sharing rules",
"The suite is sequential; no test starts two transactions on one engine at the same time.",
[M+"transaction.go",M+"sec_rule.go",V+"filter.go",V+"request_body_parser.go",O+"rx.go",S+"rule_set.go"],
[("per-transaction state",M+"transaction.go NewTransaction"),("read-only shared rules",M+"sec_rule.go SecRule"),("per-transaction parse cache",V+"request_body_parser.go requestBodyParse")],
[("shared rules","rule set and variables shared by all transactions",M+"engine.go Engine.RuleSet"),("variable cache","parsed body, per transaction",M+"transaction.go VariableCache")])

prop("C08","Bodies are reproduced byte for byte, in memory or on disk",
"""However a request or response body is cut into appended chunks, and whether it stays in memory or spills to a temporary file, its length and its content read back in any read sizes, streamed, or re-read after rewinding, are exactly
the concatenation of the accepted chunks; access as a single string or byte slice yields all of it or an error, never a silent part.
What rules see of a body does not depend on the chunking, and rules see a body only while access to it is switched on.""",
["inputs","histories"],
"all bodies, chunkings, memory limits and sequences of read, write and seek operations",
"Tests write two chunks that end exactly on the memory limit and read once with a larger buffer; no chunk straddles the limit and no content is read in pieces.",
[M+"buffer.go",M+"transaction.go",V+"request_body.go",V+"response_body.go",V+"request_body_parser.go"],
[("memory to file spill",M+"buffer.go Write"),("read cursor",M+"buffer.go initRead/Read/WriteTo/Seek")],
[("body buffer","memory part, file part, length, read state",M+"buffer.go buffer")])

prop("C09","Body limits are exact and oversized bodies fail closed",
"""A body never holds more than its configured limit: a chunk that would exceed it is refused whole, with an error and no effect, every other chunk appended before the body is first read is accepted whole, and once its content has been read it takes no further bytes.
When a rule inspects a urlencoded request body that is larger than the in-memory limit, the transaction is aborted with a disruptive 413 and a recorded body error rather than left uninspected; at or below that limit the body is inspected in full. Likewise a multipart body of more or larger parts than can be parsed is refused with a 413, or else inspected in full.""",
["inputs","configurations"],
"all limits, body sizes and chunk sizes around the limits",
"One test uses one body of 400 bytes against a limit of 64; boundaries and chunkings around either limit are not exercised.",
[M+"buffer.go",V+"request_body.go",V+"request_body_parser.go",M+"engine.go"],
[("limit check",M+"buffer.go Write"),("413 abort",V+"request_body.go, "+V+"request_body_parser.go")],
[("limits","in-memory and total limits",M+"engine.go Limits")])

prop("C10","Storage faults are reported and temporary files never linger",
"""When temporary storage cannot be created or a write to it fails, the append returns an error without panicking, and the body still reads back as the chunks acknowledged so far, followed at most by a prefix of the chunk whose append failed, with a matching length.
Closing a body, spilled or not, never panics and removes its temporary file, even when closing that file fails, and reports a close or removal that failed; once the bodies are closed inspection has left no temporary file behind.""",
["fault_sequences","inputs"],
"every point at which creating or writing the temporary file can fail, and every body, including multipart uploads larger than the in-memory limit",
"No test makes storage fail, and only one closes a spilled body.",
[M+"buffer.go",V+"request_body_parser.go"],
[("spill",M+"buffer.go Write"),("cleanup",M+"buffer.go Close"),("multipart parse",V+"request_body_parser.go")],
[("temporary file","spilled part of the body",M+"buffer.go buffer.fileBuf")])

prop("C11","Every argument reaches the rules, decoded, and nothing else does",
"""Every name=value pair of the query string (separated by &, with + and percent escapes decoded and malformed escapes kept literally) and of a urlencoded or multipart request body is presented to rules on arguments and argument names with exactly its decoded name and value; none is dropped, altered, merged or invented,
whatever other pairs, parameters of the content type, sizes or repetitions accompany it.
A body that is malformed, and no other within the limits, is recorded as a body error, and a multipart body that cannot be parsed, or a body of any other content type, presents no argument.""",
["inputs"],
"all query strings and all urlencoded and multipart POST, PUT and PATCH bodies within the limits",
"Tests use four well-formed pairs; malformed neighbours, semicolons, large multipart bodies and repeated names are never tried.",
[V+"args_gets.go",V+"args_get_names.go",V+"args_posts.go",V+"args_post_names.go",V+"args.go",V+"args_names.go",V+"request_body_parser.go",V+"merge.go"],
[("query parsing",V+"args_gets.go, "+V+"args_get_names.go"),("body parsing and cache",V+"request_body_parser.go"),("GET and POST merge",V+"merge.go")],
[("parse cache","parsed body per transaction",M+"transaction.go VariableCache")])

prop("C12","Target selectors pick exactly the named entries",
"""`NAME:key` selects exactly the entries with that name and `NAME:/re/` those whose name matches the expression; several selections of one NAME unite, a bare NAME selects all, `!NAME:key` and `!NAME:/re/` remove entries whatever selected them, and exclusions alone remove from all.
Selectors apply alike to values and to names; they compare header names without regard to case and all other names exactly. `&NAME` yields the number of values selected by the counted selections of that NAME.""",
["programs","inputs"],
"all combinations of inclusion, exclusion, expression and count selectors on argument, cookie and header targets, over all sets of names",
"Tests use at most one inclusion and one exclusion on four fixed names.",
[V+"filter.go",V+"merge.go",V+"count.go",S+"variable.go",PA+"scanner.go"],
[("name filter",V+"filter.go FetchWithNames"),("selector assembly",S+"variable.go applyVariables"),("selector parsing",PA+"scanner.go ReadVariables")],
[("filter","inclusions and exclusions of one target",V+"filter.go filter")])

prop("C13","Connection, request and response variables mirror the traffic",
"""The client address, method, protocol, URI, path, base name and query string, the request and response headers, header names, cookies and cookie names, and the response status, protocol, content type (lower case, without parameters, application/octet-stream when absent) and content length ("0" when absent) presented to rules are
exactly those announced for this transaction: nothing missing, altered, added, or carried over from another field.""",
["inputs"],
"all connections, request lines, header maps, cookie lines and responses",
"Each variable is tested on one or two fixed values.",
[V+"request_uri.go",V+"request_filename.go",V+"request_basename.go",V+"query_string.go",V+"request_headers.go",V+"request_headers_names.go",V+"request_cookies.go",V+"request_cookies_names.go",V+"request_method.go",V+"request_protocol.go",V+"remote_addr.go",V+"response_headers.go",V+"response_headers_names.go",V+"response_status.go",V+"response_protocol.go",V+"response_content_type.go",V+"response_content_length.go"],
[("extractors",V),("announcement",M+"transaction.go ProcessConnection/ProcessRequestURL/ProcessRequestHeader/ProcessResponseHeaders")],
[("traffic record","connection, request, response",M+"transaction.go NetInfo/Request/Response")])

prop("C14","Loading any text terminates without crashing",
"""For every byte sequence given as rule text, loading terminates, does not crash, and either returns an error or a configuration;
a configuration that was returned without error can be applied to an engine, and traffic processed with it terminates without crashing.""",
["inputs","programs"],
"all byte strings, in particular truncations, corruptions and recombinations of real rules, with any line ends",
"Tests load a handful of well-formed texts; no malformed text is loaded at all.",
[PA+"scanner.go",PA+"utils.go",S+"rule_set.go",S+"sec_rule.go"],
[("scanner loops",PA+"scanner.go SkipBlank/readString/ReadDirective"),("directive construction",S+"sec_rule.go FromSecLang")],
[("scanner position","current byte",PA+"scanner.go Scanner")])

prop("C15","Loaded rules say exactly what the text says",
"""A rule text, however it is laid out (letter case of directive names, single, double or no quotes, blanks, blank lines, backslash continuations, line-end style, commas inside quoted action arguments, backslash-escaped characters), loads into exactly the rules it denotes: same order, phase (2 when none is given), id, targets, operator with its argument and negation, transformations, actions and
metadata (msg, tag, rev, ver, severity, logdata).
Every rule that is accepted without error is installed, and equivalent layouts of one text load into equal rules.""",
["programs","inputs"],
"all rule sets over the supported directives, variables, operators, actions and transformations, in all equivalent layouts",
"Parser tests compare a few fixed texts with fixed trees; nothing varies the layout of a text or checks that what was parsed is installed.",
[PA+"scanner.go",PA+"seclang_token.go",PA+"utils.go",S+"rule_set.go",S+"sec_rule.go",S+"actions.go",S+"operators.go",S+"trans.go",S+"variable.go",M+"sec_rule.go"],
[("lexing",PA+"scanner.go ReadString/readString"),("action list parsing",PA+"scanner.go ReadActions/processAction"),("factories",S+"actions.go, operators.go, trans.go, variable.go"),("installation",M+"sec_rule.go AddRules")],
[("directive list","directives in textual order",S+"rule_set.go DireSet.dires")])

prop("C16","A configuration loads completely or not at all",
"""When any directive of a rule text is invalid, or reading the text fails before its end, loading reports an error and leaves the configuration it was being added to exactly as it was; a truncated text is never accepted as complete because of a read error.
When loading succeeds, all its directives take effect on an engine in textual order, every time the configuration is applied, and the way the reader delivers the bytes makes no difference.""",
["fault_sequences","inputs","histories"],
"every position of an invalid directive or read failure, every sequence of additions and applications, every read granularity",
"No test adds an invalid text to an existing configuration or reads rules from a failing reader.",
[S+"rule_set.go",PA+"scanner.go",S+"sec_rule.go",S+"rules.go"],
[("add text",S+"rule_set.go AddSecLangString"),("apply",S+"rule_set.go Execute"),("byte source",PA+"scanner.go advance/next")],
[("directive list","directives accepted so far",S+"rule_set.go DireSet.dires")])

prop("C17","URL decoding transformations decode every input exactly",
"""For every byte string, urlDecode turns + into a space and each percent escape with two hexadecimal digits into that byte and leaves every other byte as it is, so that it inverts percent-encoding; urlDecodeUni additionally turns %uXXXX (u in either case) into the UTF-8 encoding of that code point, full-width forms FF01-FF5E into the ASCII characters they depict and invalid code points into U+FFFD.
Decoding is one left-to-right pass: decoded output is not decoded again.""",
["inputs"],
"all byte strings",
"A dozen fixed strings are tested; no truncated escapes, mixed case, invalid code points or arbitrary bytes.",
["utils/urlencode.go",T+"urldecode.go",T+"urldecode_uni.go"],
[("decoder","utils/urlencode.go urldecode")])

prop("C18","Text transformations change only what they name",
"""For every byte string, lowercase lower-cases letters, removeWhitespace deletes and compressWhitespace replaces each maximal run by one space of ASCII white space (space, tab, newline, vertical tab, form feed, carriage return), removeNulls deletes and replaceNulls replaces by spaces the NUL bytes, and none changes nothing.
Every other byte is kept unchanged and in place, including bytes that are not valid UTF-8, and applying a transformation twice gives the same as once.""",
["inputs"],
"all byte strings, valid UTF-8 or not",
"Each transformation is tested on two or three short ASCII strings containing only the plain space.",
[T+"compress_whitespace.go",T+"lowercase.go",T+"map_rune.go",T+"none.go"],
[("character mapping",T)])

prop("C19","Operators decide numerically and textually exactly",
"""eq, ge, gt, le and lt compare the value with the argument as integers, ignoring surrounding white space, taking a value that is not an integer as 0 and comparing integers too large for the machine by their true sign and magnitude relative to the argument; rx holds exactly when the expression matches somewhere in the value.
An operator with an argument that is not a valid integer or expression is refused when it is built.""",
["inputs"],
"all values and arguments",
"The tests use eleven values against three arguments, all within +-20.",
[O+"compare.go",O+"rx.go",S+"operators.go"],
[("numeric comparison",O+"compare.go"),("regular expression",O+"rx.go")])

prop("C20","Hostile traffic never crashes or hangs a transaction",
"""For every rule set that loads and every sequence of transaction calls with any method, URL, headers (absent ones included), cookies, content type, body bytes, response and phase order, processing terminates without crashing and a result can be collected afterwards.""",
["inputs","histories","programs"],
"all malformed, truncated and oversized requests and responses against rules on every supported variable",
"Tests feed well-formed requests to one variable at a time; no malformed body is evaluated by two rules.",
[M+"transaction.go",V+"request_body_parser.go",V+"args_post_names.go",V+"args_posts.go",V+"request_cookies.go",V+"request_basename.go"],
[("body parsing and cached errors",V+"request_body_parser.go"),("phase loop",M+"transaction.go processPhase")],
[("parse cache","cached body or failure",M+"transaction.go VariableCache")])

prop("C21","Inspection is repeatable and leaves the traffic untouched",
"""Evaluating a variable, rule or phase never modifies the connection, request and response data, URL, header maps, body bytes or rules handed to the transaction, and evaluating the same variable again in the same transaction gives the same values.
Hence adding rules that do not match, duplicating a rule in other positions, or reordering side-effect-free rules never changes whether another rule matches.""",
["inputs","programs","histories"],
"all requests, well-formed or not, and all rule sets extended with non-matching rules",
"No test evaluates a variable twice or compares the inputs before and after.",
[V+"request_body_parser.go",V+"filter.go",V+"request_uri.go",M+"sec_rule.go",M+"transaction.go"],
[("parse cache",V+"request_body_parser.go"),("value extraction",V)],
[("variable cache","results shared between rules of a transaction",M+"transaction.go VariableCache")])

prop("C22","Every documented feature loads and has its documented effect",
"""Each directive, variable, operator, action and transformation listed in the README's supported features is accepted in a rule text and has, in live traffic, the effect its ModSecurity name stands for: the right field is inspected, the right comparison made, the right transformation applied, the right action taken, in the right phase (1 connection, 2 request headers, 3 request body, 4 response headers, 5 response body; named phases run when their name says).
A name that is not supported is refused.""",
["programs","configurations"],
"every listed feature in combination with the others, and names that are not listed",
"Most features have no test that goes from text to traffic; several listed ones are never loaded.",
["README.md",PA+"seclang_token.go",S+"variable.go",S+"actions.go",S+"operators.go",S+"trans.go",S+"rules.go"],
[("keyword tables",PA+"seclang_token.go"),("factory tables",S+"variable.go, actions.go, operators.go, trans.go")])

prop("C23","An aborted transaction stays aborted",
"""Once a transaction is aborted, by an uninspectable body or by a call, no rule is evaluated and no action runs for the rest of its life, whatever phases are announced, and outside DetectionOnly every later result repeats the same disruptive status.
The rule whose inspection caused the abort does not match, negated or not, and neither does the chain it belongs to.""",
["histories","programs"],
"every point at which the abort can happen (rule position, chain link, negated rule, phase) and every continuation",
"Tests check the abort flag after a single fetch; none continues the transaction.",
[M+"transaction.go",M+"sec_rule.go",V+"request_body.go",V+"request_body_parser.go",V+"response_body.go"],
[("abort",M+"transaction.go AbortWithError/AbortWithStatus"),("abort checks",M+"sec_rule.go Match, "+M+"transaction.go processPhase/Result")],
[("abort flag","transaction aborted",M+"transaction.go Transaction.Abort")])

prop("C24","A finished transaction or abandoned load leaves nothing behind",
"""Once a transaction is closed and dropped, or a loaded configuration is dropped, nothing it allocated remains: whatever the traffic, its
outcome, aborts and failures, memory in use, goroutines and open files of a process do not grow with the number of transactions it has served on an
engine or of rule texts it has loaded, accepted or refused.""",
["histories","inputs"],
"all sequences of transactions and loads, of any length, complete, blocked, aborted, abandoned in any phase, and then closed",
"Tests end after one or two transactions; what stays behind from each is invisible until thousands have passed.",
[M+"transaction.go",M+"engine.go",M+"buffer.go",S+"rule_set.go",S+"rules.go",V+"request_body_parser.go"],
[("transaction life cycle",M+"transaction.go NewTransaction/Close"),("spilled bodies",M+"buffer.go"),("loading",S+"rule_set.go")],
[("engine state shared by transactions","limits, modes and rules only; nothing of a transaction",M+"engine.go Engine"),("per-transaction caches","die with the transaction",M+"transaction.go VariableCache")])

prop("C25","The work done is proportional to the size of what is processed",
"""Processor time and memory used to load a rule text, or to inspect one request and response with given rules, grow no faster than
about linearly with the size of the text, query, cookies, headers, path or body, with the number of rules, links, targets, actions and selections in use,
and with the number of pieces in which a body arrives.
No input makes the cost grow with the square of its length.""",
["inputs","programs"],
"all shapes of large inputs (repeated separators, names, escapes, blanks, parts, headers, rules, actions), with every variable, transformation and operator",
"Every test input is shorter than a few hundred bytes, at which quadratic work cannot be told from linear work.",
[PA+"scanner.go",PA+"seclang.go",S+"rule_set.go",V+"query.go",V+"filter.go",V+"request_cookies.go",V+"request_body_parser.go",M+"buffer.go",M+"sec_rule.go",T+"urldecode.go",T+"urldecode_uni.go",T+"compress_whitespace.go"],
[("scanning of rule texts",PA+"scanner.go"),("parsing of queries, cookies and bodies",V),("bodies",M+"buffer.go"),("rule evaluation",M+"sec_rule.go")])

prop("C26","Rules built with the Go interface behave as the loaded ones",
"""A rule set assembled from the exported constructors (rules, variables with their selections, transformations, operators, actions) and
the rule set loaded from the text that says the same act identically on every transaction: same values inspected, same matches, actions, interventions and log entries.
This holds whether the transaction uses the engine's rule set or one given to it.""",
["programs","inputs","histories"],
"all rules expressible in both ways, in any order of phases, chains and default actions, and all traffic",
"Tests use one way or the other, and never compare them; none gives a transaction a rule set other than the engine's.",
[M+"sec_rule.go",M+"transaction.go",M+"engine.go",V+"filter.go",V+"count.go",A+"allow.go",A+"skip.go",A+"status.go",S+"variable.go",S+"actions.go",S+"operators.go",S+"trans.go",S+"sec_rule.go"],
[("rule construction",M+"sec_rule.go NewSecRule/NewSecRuleSet/AddRules"),("rule set in use",M+"transaction.go NewTransaction"),("factories",S)],
[("rule set of the transaction","the rules that it evaluates",M+"transaction.go Transaction.rs")])

prop("C27","Log entries name the client, the phase and the denial they report",
"""Every log entry a transaction produces, by a log or deny action, an abort or a call, names the address and port of that transaction's client
and the phase in which it was produced, and the entry of a denial names the status with which the intervention is reported.
Each event gives exactly one entry, literally, whatever bytes addresses and messages contain, and no transaction's entry names another's client.""",
["histories","programs","inputs"],
"all rules without allow, phases, client addresses and ports, messages, and interleavings of transactions on an engine",
"Tests read one entry of one transaction from one address in the first phases.",
[M+"transaction.go",A+"log.go",A+"deny.go"],
[("log entries",M+"transaction.go Logf"),("actions that log",A+"log.go, deny.go")],
[("pending log entries","entries not yet collected",M+"transaction.go Transaction.intervention")])

prop("C28","Directives an embedder registers load and take effect as the built-in ones",
"""A directive registered through the exported interface (name, token, kind of argument, effect) is recognised in any letter case wherever it stands in a text, receives exactly the argument written,
and takes effect once per application of the text, in text order among the other directives, on the engine given. An error it raises while loading refuses the text whole and leaves the configuration as it was;
an error it raises while being applied is returned and nothing after it takes effect. Its presence changes nothing about the directives around it, whatever their names have in common.""",
["configurations","inputs","fault_sequences"],
"all texts with registered string, on/off, three-valued and multi-argument directives whose names are letters, and every point of failure",
"No test registers a directive; order, arguments and faults among other directives are never observed.",
[S+"rule_set.go",PA+"seclang_token.go",PA+"scanner.go"],
[("registration",S+"rule_set.go RegisterDire"),("registration of names",PA+"seclang_token.go RegisterDir"),("application",S+"rule_set.go DireSet.Execute"),("loading",S+"rule_set.go DireSet.AddSecLangString")],
[("directive registry","names and tokens known",PA+"seclang_token.go dirIndex"),("directive list","what an application executes, in order",S+"rule_set.go DireSet.dires")])

prop("C29","A transaction knows the rule it is at, and moves exactly where it is told",
"""Whenever a variable, transformation, operator or action of a rule is called, the transaction given is the one being processed and reports the phase, the index and the rule being evaluated (the first rule of a chain) and the index that follows.
An action that jumps within the phase makes exactly that rule the next (or ends the phase, beyond its last); one that moves to a later phase ends the present one and suppresses exactly those between.
Data stored in a transaction is seen by it alone until it ends, and a transaction keeps the rule set it began with.""",
["programs","histories"],
"all rule sets of user-supplied parts, all forward phase moves and non-negative jumps, interleaved transactions",
"Tests call the navigation functions outside of rules, on one transaction and two rules.",
[M+"transaction.go",M+"sec_rule.go"],
[("evaluation loop",M+"transaction.go Transaction.processPhase"),("navigation",M+"transaction.go JumpTo/JumpToPhase/NextPhase/Next"),("rule evaluation",M+"sec_rule.go SecRule.Do")],
[("position","phase, current and next rule",M+"transaction.go Transaction.currentPhase/currentRule/nextRule"),("data","values of the transaction's actions",M+"transaction.go Transaction.Data")])

prop("C30","The scanner's readers each take one element and return it as meant",
"""A program that reads a rule text with the exported scanner (strings, words, values, target lists, operators, action lists, directives, in any order, or as the arguments of a directive of its own) gets for each call exactly the next element, decoded: its token, negation, count, exclusion, selector, argument, transformations, id, phase and actions in the order written. Nothing before or after is taken along, whatever pieces the stream arrives in and whatever other scanners do meanwhile, and what was returned does not change later.
An element with a mistake (an unknown name or value, an empty item, an unfinished quote) is refused, and the end of the text is reported as the end.""",
["inputs","programs"],
"all sequences of readers, all well-formed elements, all divisions of the stream into pieces",
"Tests read a few dozen fixed strings, one element each, from memory.",
[PA+"scanner.go",PA+"utils.go",PA+"seclang_token.go"],
[("strings",PA+"scanner.go Scanner.ReadString/readString/SkipBlank"),("lists",PA+"scanner.go ReadVariables/ReadOperator/ReadActions/splitActions"),("values and directives",PA+"scanner.go ReadValue/ReadDirective/AllDirective")],
[("position","the character at which the next element begins",PA+"scanner.go Scanner.current/r"),("buffer","what of the element was read",PA+"scanner.go Scanner.buffer")])

prop("C31","An interception is delivered with exactly what was put into it",
"""What rules' actions and callers put into a transaction's interception (status, pause, redirect URL, log lines, whether it is disruptive) is what the next collected result carries, field by field, log lines once each and in order and with their texts unformatted unless arguments were given; it ends rule evaluation until it is collected, and collecting or resetting it starts the next one empty.
deny makes it disruptive with the status put into it, else the last one a status action named, else 403; pass clears all but the log lines; in DetectionOnly and Off modes no result is disruptive; an abort's result carries the abort's status and error and keeps doing so. A result or copy handed out never changes afterwards, nor does changing it change the transaction or another one.""",
["programs","histories","configurations"],
"all actions and calls that put fields into interceptions, in any order, in any mode, over interleaved transactions",
"Tests collect a status and a log line from one or two rules; no test sets a pause or URL, copies or resets an interception, or looks at a result again later.",
[M+"transaction.go",A+"deny.go",A+"pass.go",A+"status.go",A+"log.go"],
[("interception",M+"transaction.go Intervention.Reset/Copy/Logf"),("collection",M+"transaction.go Transaction.Result/AbortWithStatus/AbortWithError"),("disruptive actions",A+"deny.go, "+A+"pass.go, "+A+"status.go")],
[("interception","fields set since the last collection",M+"transaction.go Transaction.Intervention"),("abort","status and error of an aborted transaction",M+"transaction.go Transaction.abort")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
