#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept as a script so the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe) or ["requests handed to the configured transport", "value and error returned by the public call"],
            hook_needed=None)))

D = "dialog/dialog.go"; C = "client/client.go"
prop("C01", "Every dialog carries the bank's dialog ID and gap-free message numbers",
 "Every dialog opens with a message that carries dialog ID 0 and message number 1, however the previous dialog of the same client ended. Every later message of that dialog, including the one that ends it, carries the dialog ID the bank assigned in its opening reply and a message number exactly one higher than the message before it. The number in the message trailer always equals the number in the message header, and the dialog-end order names the same dialog ID as the header.",
 ["histories", "fault_sequences"], "for every sequence of client calls and every sequence of bank replies (accepting, rejecting, malformed, lost) between and inside dialogs",
 "dialog_test.go runs each operation once on a fresh dialog and looks at selected fields; what is left over from an earlier (possibly failed) dialog is never observed.",
 [D, "message/message.go", "segment/message_header.go"], [("per-dialog reset of dialog ID and message counter", D+": init, anonymousInit, SyncClientSystemID"), ("message counter", D+": nextMessageNumber/newBasicMessage")],
 [("dialogID", "identifier assigned by the bank for the open dialog", D), ("messageCount", "messages sent in the open dialog", D)])
prop("C02", "An opened dialog is always ended exactly once",
 "Whenever the bank accepts the opening message of a dialog (initialisation, synchronisation or anonymous), the client sends exactly one dialog-end message for that dialog before the call returns, whether or not the business request in between fails. After the dialog-end message nothing more is sent in that dialog. If the bank rejects the opening message, or no usable reply to it arrives, neither business nor dialog-end messages are sent for it.",
 ["histories", "fault_sequences"], "for every call and every bank behaviour, with every possible failure point inside the dialog",
 "The tests script cooperative banks; failure points after an accepted opening (e.g. an unusable parameter segment, no common security function, a missing system ID) are sampled at most once each and never with a look at the messages sent afterwards.",
 [D], [("deferred dialog end", D+": SendMessage, SendAnonymousMessage, SyncUserParameterData"), ("explicit dialog end", D+": SyncClientSystemID")],
 [("open", "a dialog accepted by the bank and not yet ended", D)])
prop("C03", "The client system ID is the one the bank issued, everywhere, at all times",
 "Before the first personal dialog the client obtains a system ID from the bank by a synchronisation dialog which itself uses system ID 0 throughout its opening message; every later message carries, consistently in identification, signature and encryption header, the ID most recently issued successfully. A synchronisation that fails leaves the ID in use unchanged, and a new ID replaces the old one in all places at once. Changing the PIN does not change the system ID in use.",
 ["histories", "fault_sequences"], "for every history of calls, PIN changes, successful and failed synchronisations",
 "Tests synchronise at most once per dialog object and assert the field of the struct, not the three places of each later message.",
 [D, "message/crypto.go", "message/signature.go", "dialog/pin_tan_dialog.go"], [("SetClientSystemID", D), ("providers", "message/signature.go, message/crypto.go")],
 [("ClientSystemID", "system ID used in the identification segment", D), ("provider copies", "system ID in signature and encryption header", "message/signature.go, message/crypto.go")])
prop("C04", "A call succeeds only if the bank reported no error anywhere",
 "If any reply within a call's dialogs to an opening message or to a business request contains an acknowledgement with an error code (9000 and above), for the message as a whole or for a single segment, the public call returns an error and no result. Warnings and information codes alone (below 9000), and problems with the reply to the dialog-end message of a business dialog, never make a call fail whose replies are otherwise complete. The returned error contains the code and the text of every error acknowledgement of the reply that made it fail (account listing may hide them).",
 ["inputs", "histories", "fault_sequences"], "for every combination of acknowledgement codes in message- and segment-level acknowledgements over all steps of all public calls",
 "Tests use one or two scripted replies per call, with a single acknowledgement; combinations and positions (second segment acknowledgement, warning before error, error in the opening reply of a later page) are not covered.",
 [D, C, "message/decryption.go", "segment/acknowledgement.go", "domain/acknowledgement.go"], [("acknowledgement collection", "message/decryption.go"), ("classification", "domain/acknowledgement.go: IsError/IsWarning/IsSuccess")])
prop("C05", "Parameter-data versions quoted and user ID used mirror the latest bank data",
 "Each dialog opening quotes the bank-parameter and user-parameter versions most recently received from the bank (0 before any were received; a synchronisation always quotes 0 and 0), and replies without parameter data change neither. The customer ID in the identification of a personal dialog is the user ID of the latest user parameters, or the configured one while none have been received. The public accessors for these versions agree with what is sent.",
 ["histories"], "for every history of dialogs in which the bank sends, omits or replaces parameter data",
 "Tests check the version once after one reply; retention over several dialogs, replacement, and the use in the next opening message are not checked.",
 [D, "segment/dialog.go", "segment/common_bank_parameter_data_unmarshaler.go", "segment/user_parameter_data.go"], [("parse and store parameter data", D+": parseBankParameterData, parseUserParameterData")],
 [("BPD/UPD version", "latest received versions", D), ("clientID", "customer ID used in identification", D)])
prop("C06", "The account list mirrors the bank's latest user parameter data",
 "The list of accounts offered after any history of dialogs is exactly the list of accounts in the most recent reply that carried account information: one entry per account segment, in order, no duplicates from earlier dialogs and none missing. Each entry carries the account connection, user ID, currency, names, product, limit, and permitted business transactions exactly as the bank sent them. A list handed out earlier is not changed by later calls.",
 ["histories", "inputs"], "for every history of dialogs with arbitrary account segments (all supported versions, optional fields present or absent)",
 "Tests feed a single account in a single dialog.",
 [D, "segment/account_information.go", "element/user_parameter_data.go", C], [("collection of account segments", D+": parseUserParameterData"), ("mapping", "segment/account_information.go: Account()")],
 [("Accounts", "account list offered to the user", D)])
prop("C07", "Security function is negotiated from the bank and used consistently",
 "As long as the bank has announced no security functions, messages are signed with the one-step function (999); once a reply announces the functions permitted for the user together with the bank's list of two-step procedures, every later message uses one function that is in both lists, also after the PIN is set again. All places of a message agree: signature header and encryption header carry the same security profile and system ID, a one-step function goes with profile version 1 and a two-step function with profile version 2. If announced and offered functions have nothing in common the call fails and the function in use stays as it was.",
 ["histories", "inputs"], "for every sequence of announcements (none, one, several functions; overlapping or disjoint with the bank's list) and PIN changes",
 "Tests check a single announcement with one function; persistence over later dialogs and PIN changes, and agreement between the two headers are not checked.",
 [D, "message/signature.go", "message/crypto.go", "segment/signature_header.go", "segment/encryption_header.go"], [("negotiation", D+": updateSecurityFunctionIfNeeded"), ("propagation", D+": SetSecurityFunction; dialog/pin_tan_dialog.go: SetPin")],
 [("securityFn", "function in use", D)])
prop("C08", "The PIN appears only where the bank needs it",
 "The PIN occurs in a transmitted message exactly once, in the signature trailer inside the encryption envelope, and nowhere else in any message; anonymous messages never contain it. It never appears in results, in error texts, or - with debug logging off - in anything written to the log or to standard output, for any PIN, any bank reply and any failure.",
 ["inputs", "histories", "fault_sequences"], "for every PIN value, call, bank reply and fault",
 "Tests never search requests, errors or logs for the PIN; a leak on an error path passes unnoticed.",
 ["message/signature.go", "element/pin.go", "internal/logger.go", "transport/middleware/logging.go", "message/message.go"], [("signature end holds the custom signature", "segment/signature_end.go"), ("debug output switched off by default", "internal/logger.go")])
prop("C09", "Anonymous access is anonymous",
 "Messages of an anonymous dialog carry no signature, no encryption envelope and no PIN; they identify with customer ID 9999999999 and system ID 0 and declare that no system ID is needed. They still follow dialog numbering and dialog end like personal dialogs, and neither require nor trigger a synchronisation.",
 ["histories"], "for every interleaving of anonymous and personal dialogs on the same client, and every bank reply",
 "The anonymous dialog has a single test for initialisation; mixing with personal dialogs is not tested.",
 [D, C, "segment/identification.go"], [("anonymous dialog", D+": SendAnonymousMessage, anonymousInit, anonymousEnd")])
prop("C10", "Paged results are complete, in order and fetched exactly once",
 "When the bank splits the answer to a transactions or SEPA balance query over several replies (announcing each continuation with a reference), the client requests every page exactly once, quoting the reference exactly as received and otherwise repeating the original order, until a reply announces no further page. The result contains the data of all pages, each entry exactly once, entries of a page in order; if any page fails, or cannot be read, the call returns an error and no partial result. A caller-supplied starting reference is used for the first request. Results handed out earlier are not changed by later calls.",
 ["histories", "inputs", "fault_sequences"], "for every number of pages, reference text (including reserved characters), split of the data over pages and failure at any page",
 "The test for continuation uses one fixed follow-up page and a plain reference.",
 [C, "swift/mt940.go", "segment/account_transaction.go", "segment/account_balance.go"], [("recursion over continuation references", C+": accountTransactions, SepaAccountBalances"), ("merging", "swift/mt940.go: MergeMT940Messages")])
prop("C11", "Orders are sent in the highest version both sides support",
 "For every transaction, balance and status order the client sends the highest segment version that both the bank announced (in its latest parameter data) and the client implements, with the field layout of that version. If there is no common version the call fails and no business message is sent.",
 ["configurations", "histories"], "for every set of announced segment/version pairs, in any order, over all orders",
 "Tests check one or two announced versions per order.",
 ["segment/segment_index.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/status_protocol.go", "message/decryption.go"], [("version selection", "segment/*: builder functions"), ("announced versions", "message: SupportedSegments")])
prop("C12", "Each request is handed to the transport once, in lockstep, and answered once",
 "Every message is given to the transport at most once; the next one is only sent after the previous exchange finished, and a transport failure or unusable reply to an opening or business message is never retried and never followed by another business order in that call. A call that reports success has delivered its business order exactly once per page.",
 ["fault_sequences", "histories"], "for every call and every fault (transport error, HTTP error, unreadable or empty reply) at every exchange",
 "Tests never inject a fault after the first exchange, nor count submissions.",
 [D, C, "transport/https/https.go"], [("single synchronous exchange", D+": request")])
prop("C13", "Independent clients do not influence each other",
 "Clients created separately may be used at the same time from different goroutines: each behaves, message for message and result for result, exactly as it would alone. In particular no identifiers, parameter data, message numbers, segments or buffers of one client ever show up in messages or results of another.",
 ["schedules"], "for every interleaving of the exchanges of independently created clients",
 "Tests are sequential and use one client at a time; shared package-level state or shared templates would not be noticed.",
 [C, D, "segment/hbci_version.go", "internal/logger.go", "token/lexer.go"], [("no shared mutable state between dialogs", "dialog, message, segment packages")])
prop("C14", "Outgoing messages are well-framed",
 "Every message the client sends is a complete HBCI message: first segment is the message header, last the message trailer, both with the right identifiers and versions for the configured protocol version, and the size in the header equals the exact number of bytes transmitted. Segment positions are unique and strictly increasing starting at 1 for the header, with the encryption header and data at 998 and 999 and the enveloped segments numbered consecutively from 2 up to just before the trailer; references and control reference of signature header and trailer match. Binary length prefixes equal the length of the data they precede.",
 ["inputs", "configurations"], "for every operation, protocol version, and every field content the caller can supply",
 "Tests compare a few complete messages with fixed content; sizes are compared to numbers copied from output.",
 ["message/message.go", "message/encryption.go", "segment/segment.go", "segment/message_header.go", "element/data_element.go"], [("SetSize/SetSegmentPositions", "message/message.go"), ("segment marshalling", "segment/segment.go")])
prop("C15", "Text the caller supplies reaches the bank unchanged",
 "Every text value the caller supplies (account and user identifiers, product name, references, PIN) is found by a conforming HBCI reader at its place in the transmitted message with exactly the same characters: reserved characters (+ : ' ? @) are escaped so that they never split or shift fields, trailing ones included, and text is transmitted in ISO 8859-1.",
 ["inputs"], "for all strings over the ISO 8859-1 repertoire, with every placement and repetition of reserved characters, in every text field",
 "Tests escape a single fixed string per reserved character.",
 ["element/data_element.go", "element/group_data_element_group.go", "charset/convert.go", "segment/segment.go"], [("escaping", "element/data_element.go: AlphaNumeric MarshalHBCI"), ("charset conversion", "charset/"), ("trailing separator trimming", "segment/segment.go, element/group_data_element_group.go")])
prop("C16", "Text the bank sends reaches the caller unchanged",
 "Every text value of a bank reply surfaced by the library (acknowledgement texts, parameters and references, account data, names, bank announcement, parameter data) equals the text the bank encoded: escape sequences are resolved exactly once, ISO 8859-1 is converted to UTF-8 exactly once, and reserved characters inside the text neither split nor truncate it.",
 ["inputs"], "for all strings over the ISO 8859-1 repertoire in all text fields of replies",
 "Fixtures contain plain texts without escapes, and almost no umlauts.",
 ["element/data_element.go", "element/acknowledgement.go", "element/group_data_element_group.go", "segment/acknowledgement.go", "domain/"], [("unescaping", "element/data_element.go"), ("splitting", "element/element.go, segment/element extraction")])
prop("C17", "A message is partitioned into exactly its segments",
 "Splitting a well-formed message yields exactly its segments in order, whatever they contain (escaped separators, binary data containing any bytes including separators and quotes): nothing lost, duplicated or merged, and concatenating the parts gives the original bytes. Splitting a segment into data elements, and an element into group elements, has the same property; lookup by segment identifier returns exactly the segments with that identifier, no others.",
 ["inputs"], "for all well-formed messages; exhaustively for all short strings over the significant characters",
 "The lexer tests are a table of about twenty inputs.",
 ["token/lexer.go", "element/element_extractor.go", "message/segment_extractor.go", "segment/element_extractor.go"], [("lexer state machine", "token/lexer.go"), ("segment extraction", "message/segment_extractor.go")])
prop("C18", "Malformed or hostile replies are contained",
 "Whatever bytes the bank (or the network) returns at any exchange of any call - truncated, corrupted, empty, wrong encoding, missing or unexpected segments, values outside their range - the call returns within bounded time with a result or an error; it never panics and never hangs. Afterwards the client is still usable: a following call against a conforming bank behaves as if the broken call had not confused it (fresh dialog, correct numbering, correct identifiers).",
 ["inputs", "fault_sequences"], "for every reply obtained by deleting, truncating, duplicating or corrupting any part of a valid reply, at every exchange of every call, and for arbitrary bytes",
 "Tests contain only well-formed replies and a handful of hand-made malformed ones.",
 [D, C, "message/", "segment/", "element/", "token/", "swift/"], [("error returns of all unmarshalers", "segment/*_unmarshaler.go, element/*.go")])
prop("C19", "Unknown segments in replies are ignored",
 "Segments with unknown identifiers or unsupported versions anywhere in a bank reply do not change the outcome of a call: same result, same later messages, no error. Order of independent segments in a reply does not matter either.",
 ["inputs"], "for every reply with any number of unknown segments inserted at any position",
 "Fixtures contain the same few segments in the same order.",
 ["message/unmarshaler.go", "segment/segment_index.go", D], [("known-segment table lookup", "message/unmarshaler.go")])
prop("C20", "Account statements yield exactly their transactions",
 "For every well-formed statement sequence (one or more MT940 messages, any number of transactions each, optional details), the result lists exactly one entry per transaction line, in order, each paired with its own details and none with another's; statements without transactions contribute none. Each entry names the account of its statement. Statements that arrive in several pieces, cut anywhere, are read as if they had arrived in one; a text that breaks off within a statement is an error, not a shorter result.",
 ["inputs"], "for all well-formed MT940 structures (number of messages, transactions per message, details present or absent per transaction, line breaks inside fields)",
 "Tests use a few recorded statements.",
 ["swift/mt940.go", "swift/tag_extractor.go", "swift/mt940_unmarshaler.go", "token/swift_lexer.go"], [("tag extraction", "swift/"), ("pairing of :61: and :86:", "swift/mt940.go")])
prop("C21", "Amounts, signs, dates and balances of statements are exact",
 "Each transaction carries the exact amount and currency, positive for credits (C) and reversed debits (RD), negative for debits (D) and reversed credits (RC); its value date is the date given, and its booking date - of which only month and day are transmitted - is the calendar date closest to the value date. Opening and closing balances carry sign, amount, currency and date of the statement they belong to.",
 ["inputs"], "for all amounts, credit/debit marks, value/booking date pairs including year ends and leap days",
 "Tests contain no reversals, no debit balances and no year boundary.",
 ["swift/element.go", "swift/mt940.go", "domain/"], [("parsing of :61: and :60:/:62:", "swift/")])
prop("C22", "Transaction details are split into their proper fields",
 "Structured details (:86:) are mapped field by field: transaction type code, booking text, primanota number, purpose lines (fields 20-29 and 60-63, joined in ascending field order), bank ID, account ID and name (two lines, joined) of the other party; absent fields stay empty and malformed or short details give an error or unstructured result, never a panic or a value from another field.",
 ["inputs"], "for all subsets, orders and contents of structured fields",
 "Tests use a few recorded details.",
 ["swift/element.go", "swift/mt940.go"], [("custom field parsing", "swift/")])
prop("C23", "Reported balances equal what the bank sent",
 "For balance replies of every supported version each reported balance has the account, product, currency, booked balance (with sign: credit positive, debit negative), earmarked balance, credit line, available and used amount, booking date/time and due date transmitted by the bank in the corresponding field; optional fields that were not sent are absent, not zero or another field's value. Balances handed out earlier are not changed by later calls.",
 ["inputs", "configurations"], "for all supported versions, all subsets of optional fields, both signs and all amounts with up to two decimals",
 "Tests unmarshal one full segment per version.",
 ["segment/account_balance.go", "segment/account_balance_unmarshaler.go", "element/group_data_element_group.go", "domain/account_balance.go"], [("field mapping per version", "segment/account_balance.go")])
prop("C24", "Status protocol entries equal what the bank sent",
 "For every status reply the client returns one entry per status segment, in order, with the code (telling success, warning and error apart), text, parameters, transmission date/time, dialog ID, message number and segment number the bank sent, independent of the time of the query and untouched by later calls.",
 ["inputs"], "for all status segments of all supported versions, with optional references present or absent",
 "There is one unmarshaling test per version; nothing checks the time.",
 ["segment/status_protocol.go", "domain/acknowledgement.go", C], [("mapping", "segment/status_protocol.go: Status()")])
prop("C25", "IBANs are accepted exactly when valid, and built correctly",
 "Parsing accepts a string exactly if, spaces removed, it is a syntactically well-formed IBAN (two letters, two check digits, letters and digits in either case, exactly the length registered for its country, at most 34 characters if none is registered) whose check digits, 02 to 98, are right under ISO 7064 mod 97-10. Replacing one character of a valid IBAN by another of the same kind (letter or digit), or swapping two neighbours of the same kind, is therefore always noticed, and no input panics. A German IBAN built from bank and account number is valid, and contains the bank number and the account number padded with zeros to ten digits; its parts and print format read back the same data.",
 ["inputs"], "for all strings, all bank numbers and account numbers",
 "Tests check a table of about ten IBANs.",
 ["iban/iban.go", "domain/bank_id.go"], [("mod-97 check", "iban/iban.go"), ("construction", "iban/iban.go: NewGerman")])
prop("C26", "Client configuration is resolved predictably",
 "An explicit URL or protocol version in the configuration always wins; what is missing is taken from the bank directory entry with exactly the configured bank number. Unsupported versions and, if something is missing, unknown banks or unusable directory entries yield an error, never a panic or a client for another bank. Requests go to the resolved URL with the configured bank number, account ID, product name and version and the resolved protocol version in every message.",
 ["configurations"], "for all combinations of present, absent and invalid configuration values and all directory entries",
 "Tests create a client for two configurations.",
 [C, "bankinfo/bank_info.go", "bankinfo/data.go", "segment/hbci_version.go"], [("resolution", C+": New"), ("directory lookup", "bankinfo/bankinfo.go")])
prop("C27", "Transport wrapping is transparent",
 "The bank endpoint receives exactly the base64 encoding of the message produced by the client, once, by HTTP POST at the configured URL, and the client works on exactly the decoded bytes of the reply body; debug logging on or off does not change either. Transport errors, HTTP error statuses and undecodable bodies surface as errors of the call.",
 ["inputs", "configurations", "fault_sequences"], "for all message bodies and lengths, with logging on and off, all HTTP statuses and broken bodies",
 "Middleware tests use one short body each.",
 ["transport/https/https.go", "transport/middleware/encoding.go", "transport/middleware/logging.go", "transport/transport.go"], [("base64 middleware", "transport/middleware"), ("logging middleware", "transport/middleware"), ("https transport", "transport/https")])
prop("C28", "Data elements read back as the values they were built from",
 "Every data element and group the library can both write and read (numbers, digits of fixed width, decimals, truth values, dates, times, codes, texts, binary data; amounts, banks, national and international accounts, balances, limits, permitted orders, segment headers, message references, acknowledgements and their parameters, keys, certificates, security dates and identities, algorithms, PIN and TAN, lists of versions, languages and methods) is written as HBCI prescribes, and reading what was written gives back exactly the same values. Other correct spellings (leading zeros, trailing zeros of a decimal, optional fields left out) are read as the value they denote. Impossible dates, times and truth values and letters in numbers are refused, and no text makes reading crash or change the caller's bytes.",
 ["inputs"], "for every kind of data element and all values of its fields, in particular those containing reserved characters, zero, empty and longest values",
 "Element tests try one or two values per element, most elements and nearly all combinations of fields have no test that reads back what was written.",
 ["element/data_element.go", "element/group_data_element_group.go", "element/account.go", "element/acknowledgement.go", "element/message.go", "element/segment_header.go", "element/signature.go", "element/encryption.go", "element/user_parameter_data.go", "element/bank_parameter_data.go", "element/communication_access.go", "element/pin.go"],
 [("writing and reading", "element: MarshalHBCI, UnmarshalHBCI, Val"), ("groups", "element: NewDataElementGroup")])
prop("C29", "Announced bank capabilities are mirrored",
 "After bank parameter data were received, the supported orders reported by the client are exactly the parameter segments announced in that data (identifier and version), and the PIN/TAN requirement table maps each order named by the bank to whether it needs a TAN, exactly as announced; replies without bank parameters change nothing, newer parameters replace older ones completely. Bank name, bank number, languages, supported protocol versions and limits are those announced.",
 ["histories", "inputs"], "for every history of parameter data with any set of parameter segments",
 "Tests compare one reply with two parameter segments.",
 [D, "message/decryption.go", "segment/common_bank_parameter_data.go", "segment/pin_bpd.go", "element/bank_parameter_data.go"], [("parse and store", D+": parseBankParameterData")],
 [("supportedSegments", "announced segment versions", D), ("PinTanBusinessTransactions", "TAN requirement per order", D)])
prop("C30", "Business orders carry exactly what the caller asked for",
 "The transmitted order contains the account connection, the all-accounts flag, the time range, the maximum number of entries and the continuation reference the caller passed, in the fields the order's version prescribes, with dates as the same calendar days; an omitted start or end of a transaction range means one month ago and today. No order carries values from an earlier call.",
 ["inputs", "histories"], "for all argument values, all order versions and sequences of calls",
 "Tests check the request of one call with one set of arguments at most, mostly only its presence.",
 [C, "segment/account_balance.go", "segment/account_transaction.go", "segment/status_protocol.go", "segment/basic_account_information.go", "domain/time.go"], [("request segments", "segment/*"), ("builders", "segment/segment_index.go")])
prop("C31", "Dates and time frames survive being stored",
 "A date written as JSON or text, and a time frame written as JSON or as the parameters of a URL query, reads back as the same calendar days, for every day of the calendar including leap days; the zero date and the empty time frame read back as such. A date made from a moment is the day of that moment where it was taken, without a time of day. A text that is not a date of the calendar is refused; a query with a missing or impossible date is refused.",
 ["inputs"], "for all days of the calendar, pairs of days, and all texts",
 "Tests try one or two dates per function.",
 ["domain/time.go"], [("dates", "domain/time.go: ShortDate"), ("time frames", "domain/time.go: Timeframe, TimeframeFromQuery")])
prop("C32", "The published bank directory is imported exactly",
 "Importing a published directory yields one entry per row that has a bank number, in the order of the rows, each field taken from the column with its name wherever that column stands, without surrounding blanks, and empty where the column or cell is missing; a malformed table is an error. The generated built-in directory contains exactly these entries, unaltered and sorted by bank number.",
 ["inputs"], "for all orders of columns and all cells: quoted, empty, with separators, quotes, line breaks and umlauts, rows too short or too long",
 "Tests import two short well-formed tables; the generator has no test.",
 ["bankinfo/parser.go", "bankinfo/bank_info.go", "cmd/bankdata_parser/bankdata_parser.go"], [("import", "bankinfo/parser.go: ParseBankInfos, ParseBicData"), ("generator", "cmd/bankdata_parser")])
prop("C33", "The command line client does what it is told, and keeps the PIN to itself",
 "User and bank are taken from the flags, else from the environment, else from the configuration file. A call that finds no configuration file leaves one with the values it worked with, which later calls use; an existing file is never changed, and the PIN is neither stored nor printed. Accounts, balances and transactions ask the bank for exactly the account meant (the user's own unless another is named), with its German IBAN, and for the last ten days or the number named, in the messages the library's other properties prescribe. Every account, balance and transaction the bank sent is printed once, with its amounts and signs, and the exit code is 0; if the bank or the connection fails, the error is printed, no entries are, and the exit code is not 0. A call without PIN, user or bank, for an unknown bank or with an impossible account number fails without sending anything.",
 ["histories", "configurations", "inputs"], "for all combinations of flags, environment and configuration files, all sequences of calls in one home directory and all replies of the bank",
 "The program has no tests.",
 ["cmd/banking/root.go", "cmd/banking/accounts.go", "cmd/banking/balances.go", "cmd/banking/transactions.go", "domain/account_transaction.go", "domain/account_balance.go", "domain/account_information.go"],
 [("configuration", "cmd/banking/root.go: initConfig, initClient"), ("commands", "cmd/banking: Run"), ("tables", "domain: String")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
