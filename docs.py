#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json

PY = '/opt/venv/bin/python'
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


LEX, PAR, AST, SEM, INT, SYM, ERR = ['hgpl/%s.py' % x for x in ('lexing', 'parsing', 'ast', 'semantics', 'interpreting', 'symbols', 'errors')]
CERT, SAA, SPA, CAA, CPA = 'hgaa/attcert.py', 'hgaa/services/aauth.py', 'hgaa/services/pauth.py', 'hgaa/clients/aauth.py', 'hgaa/clients/pauth.py'
CONF, DB, TOOLS, LOG, SCA, SCP = 'hgaa/config.py', 'hgaa/database.py', 'hgaa/tools.py', 'hgaa/log.py', 'hgaa/schema/aauth.py', 'hgaa/schema/pauth.py'

prop('C01', 'Tokenising a policy follows the lexical grammar for every text',
     'For every policy text the lexer either yields exactly the tokens of the HGPL lexical grammar (type, value and start position; keywords in any letter case; longest '
     'numbers, quoted strings without escapes, attribute names with their prefix) and the list of attributes used, or raises a LexerError. No text makes it raise anything else, loop, '
     'or yield a token that overlaps or skips text.',
     ['inputs'], 'all texts up to a bound over an alphabet that separates every case of the grammar, all sequences of lexical pieces, number and keyword forms, long texts',
     'the tests lex a dozen fixed policies; the claim is about every string a policy author can type, in particular texts that end in the middle of a token',
     [LEX], [('Lexer.next_token and its helpers', LEX)],
     'exhaustive enumeration of all bounded texts against an executable reference lexer, on the real lexer',
     'every text within the bound is run through the real lexer and the reference')
prop('C02', 'The parser accepts exactly the sentences of the policy grammar',
     'A text is accepted as a policy if and only if its tokens form a sentence of the HGPL grammar (parentheses, NOT, AND, OR, comparisons between attributes and constants, sets); '
     'every other text is refused with a policy error (LexerError or ParserError). Parsing the same input again gives the same outcome.',
     ['inputs'], 'all token strings up to a length, all sentences generated by the grammar up to a longer length, long chains and deep nesting up to about 130 levels',
     'acceptance is a property of an infinite language; the tests hold a few sentences and fewer non-sentences',
     [PAR, LEX], [('Parser.parse and the recursive descent rules', PAR)],
     'exhaustive enumeration of all token strings up to a bound against a reference grammar', 'the real parser runs on every string')
prop('C03', 'A parsed policy has the structure its text says',
     'The tree of an accepted policy has exactly the structure of the text: NOT binds tighter than AND, AND tighter than OR, equal operators group to the left, parentheses override, '
     'operands keep their order, and every node carries the value and the text position of its token. Constants keep their exact type and value.',
     ['inputs'], 'all sentences of bounded length, all operator chains with all placements of one or two groups',
     'the tests compare a handful of trees; precedence and associativity errors show only for particular operator sequences',
     [PAR, AST], [('Parser grammar rules', PAR), ('AST node classes', AST)],
     'exhaustive enumeration of all bounded sentences; tree compared node by node with an independently defined structure', 'the reference splits at the last lowest-precedence operator')
prop('C04', 'AND, OR and NOT decide as three valued logic for every formula',
     'For every formula over AND, OR, NOT and parentheses and every assignment of TRUE, FALSE and UNDEF to its operands, the decision is that of Kleene\'s three valued logic. '
     'Only TRUE grants (has a true truth value); UNDEF and FALSE never do.',
     ['inputs', 'programs'], 'all formula shapes up to 4 leaves (5 thorough) x all valuations, flat and nested chains up to 150 operands',
     'the number of formula and valuation pairs grows exponentially; the tests evaluate some of the truth table in few shapes',
     [INT, AST], [('Interpreter.evaluate', INT), ('ASTResult operations', AST)],
     'exhaustive enumeration of formulas x valuations on the real interpreter against the three valued truth tables', 'complete within the bound')
prop('C05', 'Every comparison decides as specified for every pair of operands',
     'For each operator (=, !=, <, >, <=, >=, IN, SUBSET) and each pair of operand kinds and values (numbers, strings, NULL, sets, attributes of each type, in either position) the result is the '
     'specified TRUE, FALSE or UNDEF: numbers compare by value, order is defined for numbers only, = and != are UNDEF for values of different kinds and otherwise opposite, IN is membership (for a set on '
     'the left: a common element), SUBSET is inclusion. A single valued attribute counts as a one element set where the other operand is a set or where IN or SUBSET relate two attributes.',
     ['inputs'], 'all operators x all pairs of representative operands of every kind, all pairs of subsets of a small universe, numeric boundaries',
     'the tests sample few of the kind combinations, and several combinations were wrong while the tests passed',
     [INT, AST, SYM], [('Interpreter comparison operators', INT)],
     'exhaustive enumeration of operator x operand x operand on the real interpreter against a reference', 'complete for the operand universe')
prop('C06', 'Missing or unusable attributes never grant access',
     'An attribute that is missing from the symbol table, has no value, has no type, or has a value that does not fit its type makes the comparison it is used in UNDEF and is never treated as a value, '
     'in every policy around it. A policy whose decision depends on such an attribute is not granted, and a policy that is a single non-boolean attribute is an error, never a grant.',
     ['inputs', 'configurations'], 'all formulas up to three atoms x all availability states of each attribute',
     'fail-closed behaviour must hold in every context; the tests have a handful of undefined attributes',
     [INT, SYM], [('Interpreter attribute lookup', INT), ('SymbolTable.lookup', SYM)],
     'exhaustive enumeration of formulas x attribute availability states against the reference', 'complete within the bound')
prop('C07', 'A decision depends only on the policy and the attributes of that evaluation',
     'Evaluating a policy gives the same decision whatever was evaluated before, with the same or another interpreter, parser, tree or symbol table, and also after failed evaluations. '
     'Changing the attributes between evaluations is always reflected, and evaluating changes neither the policy nor the symbol table.',
     ['histories'], 'all sequences of evaluations with different tables, failing evaluations, re-parsing and table changes up to a length, trees sharing subtrees',
     'the tests build a fresh interpreter for every evaluation; remembered results show only in a history of two or more',
     [INT, PAR, AST], [('Interpreter.evaluate, node results', INT), ('Parser reuse', PAR)],
     'exhaustive exploration of all bounded call histories on the real objects; each decision compared with that of a fresh evaluation by the reference', 'all histories within the bound')
prop('C08', 'Every text is either refused with a policy error or decided as specified',
     'Given any text and any attributes, going from text to decision either ends in a policy error (lexer, parser, type checker or interpreter error) or in the TRUE, FALSE or UNDEF decision the language '
     'specification gives. No text yields another exception (apart from exceeding Python\'s recursion depth with several hundred nested operators), an endless run, or a decision for a text that is not a policy.',
     ['inputs'], 'all sequences of policy pieces up to a length; all prefixes, suffixes, single deletions and swaps of valid policies; all single characters in context',
     'an access decision for a malformed policy is a security failure and the tests try few malformed texts end to end',
     [LEX, PAR, SEM, INT], [('the pipeline Lexer, Parser, TypeChecker, Interpreter', INT)],
     'exhaustive enumeration of bounded texts through the whole pipeline against the reference semantics', 'all stages are the real ones')
prop('C09', 'An encoded policy decodes to the same policy',
     'For every policy, encoding its tree (bytes or base64) and decoding it gives a tree with the same structure, the same values with the same types (integers of any size, floats to the last bit, any Unicode text), '
     'the same positions and the same decisions; encoding that tree again gives the same bytes, and different policies have different encodings. Truncated encodings are never decoded into a policy.',
     ['inputs'], 'all sentences of bounded length, all value boundaries, sizes up to 4098 nodes and 65000 bytes, all truncations',
     'the tests round-trip three policies; precision, size and character set problems show only for particular values',
     [AST], [('ASTEncoder.encode / decode', AST)],
     'exhaustive enumeration of bounded policies and boundary values with round trip on the real encoder', 'values up to the 16 bit fields of the format')
prop('C10', 'Policy encodings do not depend on what the process did before',
     'The encoding of a policy is the same whatever trees were built, encoded or decoded before in the process, in any order and number; decoded trees can be combined and encoded again. '
     'Trees built from shared or decoded parts encode like the same tree built from scratch.',
     ['histories'], 'all sequences of building, encoding, decoding and combining up to a length, and up to 200000 nodes created before',
     'hidden counters only matter after many operations; tests start from a fresh process',
     [AST], [('node numbering in ASTEncoder', AST)],
     'exhaustive exploration of all bounded histories on the real encoder', 'all histories within the bound')
prop('C11', 'The type checker reports exactly the impossible comparisons',
     'Type checking a policy reports one error, at the position of the operator, for every comparison whose constant operands can never be compared that way, wherever it stands in the policy, and no error for any other comparison. '
     'The overall result, the errors and the warnings agree with each other, and checking again reports the same issues.',
     ['inputs'], 'every operator with every pair of operand kinds in every frame, all pairs and triples of comparisons, all short sentences',
     'the tests check a few pairs of kinds at the top of a policy; an issue must be found at every depth and none invented',
     [SEM], [('TypeChecker.check', SEM)],
     'exhaustive enumeration of bounded policies against a reference type checker', 'complete within the bound')
prop('C12', 'Attribute types are inferred, and conflicts warned about, exactly as used',
     'The type checker infers the type of each attribute from the first constant or typed attribute it is compared with (left to right), and warns exactly at the comparisons that use an attribute with a conflicting type '
     '(integers and floats do not conflict). The resulting table names every attribute of the policy once, with its inferred type or unknown.',
     ['inputs'], 'all policies of up to four comparisons (five thorough) over three attributes',
     'the outcome depends on the order of comparisons; the tests hold few orders',
     [SEM, SYM], [('TypeChecker inference', SEM)],
     'exhaustive enumeration of all bounded comparison sequences against the reference inference', 'one pass, left to right, as in the code')
prop('C13', 'Severity thresholds decide exactly which issues stop a policy',
     'Checking or evaluating with a threshold raises exactly when an issue or warning at or above that severity exists, and reports it as the documented error; below the threshold the outcome is the same as without. '
     'The default threshold never turns a warning into a failure, and severities are totally ordered.',
     ['inputs', 'configurations'], 'all policies up to three comparisons x all threshold levels, for the type checker and for the interpreter',
     'the tests use one or two levels on few policies',
     [SEM, INT, ERR], [('TypeChecker.check(min level)', SEM), ('Interpreter.evaluate(min_warn_level)', INT), ('ErrorType', ERR)],
     'exhaustive enumeration of policies x levels against the reference', 'complete within the bound')
prop('C14', 'Symbol tables behave as case-insensitive maps after any operations',
     'After any sequence of operations a symbol table, and one made with the builder, finds exactly the attributes defined, by prefix and name in any letter case; attributes with the same name but different prefixes stay distinct. '
     'Each attribute keeps its type and value, lookups of others find nothing, and policies decide accordingly.',
     ['histories', 'inputs'], 'all operation sequences up to a length over few names, prefixes and values, breadth first over table states',
     'the tests define a few symbols once each',
     [SYM], [('SymbolTable, SymbolTableBuilder', SYM)],
     'explicit-state breadth first search over table states and exhaustive operation sequences against a map model, replayed on the real tables', 'every transition of the model is executed on the real table')
prop('C15', 'Policy errors point at the mistake',
     'For every text that is refused, the error names the position where the text stops being the beginning of any policy (start of the offending token or character, or the end of the text), within the text, '
     'and its message can be produced. The same text always gives the same error.',
     ['inputs'], 'all token sequences and character sequences up to a length, all single edits of valid policies',
     'the tests check positions of a few errors',
     [ERR, LEX, PAR], [('HGPLError positions', ERR)],
     'exhaustive enumeration of bounded texts; position compared with the reference', 'complete within the bound')
prop('C16', 'A certificate survives encoding and decoding',
     'Encoding an attribute certificate, or any of its parts, and decoding the bytes gives back equal content: every field at every size the format allows, any Unicode text, any bytes, any number of attributes and extensions, signed or not. '
     'Absent and empty optional fields are the same content; decoding uses exactly the bytes that were encoded.',
     ['inputs'], 'every field at every boundary value, all pairs of fields and parts, lengths around every size limit, hundreds of attributes',
     'the tests encode a few certificates with short ASCII fields',
     [CERT], [('encode/decode of every AC part', CERT)],
     'exhaustive enumeration of boundary values and all their pairs with round trip on the real encoder', 'pairwise complete over boundary values')
prop('C17', 'Different certificates never have the same encoding',
     'Two certificates (or parts) with different content have different encodings, and no encoding of a part is the beginning of another encoding of that part, so nothing signed can be read as something else.',
     ['inputs'], 'all pairs of contents built from small field values, for every part and for whole certificates',
     'unambiguity is a statement about all pairs; no test compares encodings of different certificates',
     [CERT], [('length prefixed encoding', CERT)],
     'exhaustive enumeration of all small contents; all encodings compared with each other', 'complete for the field universe')
prop('C18', 'A signature vouches for every field of the certificate',
     'A certificate verifies if and only if it carries a signature made over exactly its present content with the private key belonging to the public key of its issuer field: changing, adding, removing or reordering anything '
     'afterwards makes it fail, restoring it makes it verify again. Unsigned certificates never verify.',
     ['inputs', 'histories'], 'every field changed to every boundary value, structural changes, all histories of signing, changing, encoding, copying up to a length, several keys',
     'one field forgotten in the signed content lets users give themselves attributes; the tests change one or two fields',
     [CERT], [('AttributeCertificate.sign / verify_signature', CERT)],
     'exhaustive enumeration of all field changes and bounded histories on the real code with real signatures', 'the algorithm label beside the signature is not covered by the signature in this format')
prop('C19', 'Tampered certificate bytes are never imported with other content',
     'Importing certificate bytes with verification either refuses them or gives exactly the content the issuer signed, for every modification of the bytes: changed, cut, inserted, deleted, swapped, spliced from other certificates, re-signed with another key under the same issuer key.',
     ['inputs'], 'all single byte changes (8 values per byte, all 255 thorough), all cuts, insertions, deletions, swaps and splices of sample certificates',
     'the tests corrupt one certificate once',
     [CERT], [('AttributeCertificate.import_ac(verify=True)', CERT)],
     'exhaustive enumeration of all byte level modifications of sample certificates on the real import', 'complete for the sample certificates')
prop('C20', 'Every export format carries the same certificate',
     'Exporting a certificate in a supported format and importing that gives an equal certificate that verifies as before; import leaves its input unchanged and works for bytes, bytearrays and text as documented. '
     'Export with signing produces a verifying certificate, and unsupported requests raise an error.',
     ['inputs', 'histories'], 'all certificates of a pool x formats x signing modes x input types, all chains of export and import up to a length',
     'the tests use each format once',
     [CERT], [('AttributeCertificate.export_ac / import_ac', CERT)],
     'exhaustive enumeration of combinations and bounded chains on the real code', 'complete within the bound')
prop('C21', 'A certificate is valid strictly between its start and its end',
     'The time check of a certificate says valid exactly when the given (or current) time is later than its start and earlier than its end, for all times the format can hold. Certificates made without explicit times are issued now and end a day later, '
     'and serial numbers given by default are in range and differ.',
     ['inputs'], 'all combinations of start, end and clock from boundary points and their neighbours, under a controlled clock',
     'off by one errors show only at the boundaries, which the tests do not visit because they use the real clock',
     [CERT], [('AttributeCertificate.verify_time', CERT), ('ACRevocationRules defaults', CERT)],
     'exhaustive enumeration of start x end x clock under a controlled clock', 'complete for the points')
prop('C22', 'Certificates are equal exactly when their content is',
     'Two certificates (or two parts of a kind) compare equal if and only if all their fields are equal (the display names of issuer and holder do not count), with attributes and extensions compared as collections with multiplicity; equality is reflexive, symmetric and transitive, and != is its negation.',
     ['inputs'], 'all pairs and triples from a pool with one difference in every field, repeated entries and different orders',
     'the tests compare a few pairs',
     [CERT], [('__eq__ of certificate parts', CERT)],
     'exhaustive enumeration of all pairs of a pool that differs in every field', 'complete for the pool')
prop('C23', 'Attribute certificates are issued only for valid credentials',
     'The attribute authority issues a certificate if and only if the credential type is supported and the user name (in any letter case) and password belong together now, including the configured pepper. '
     'Every other request is refused as the client\'s fault with the same answer for unknown users and wrong passwords, and leaves no certificate behind.',
     ['inputs', 'histories', 'configurations'], 'all combinations of names, passwords and types from lists of near misses; all histories of adding, changing and removing accounts and logging in',
     'authentication must hold for every pair and every account history; there are no service tests at all',
     [SAA, SCA], [('AttributeAuthority.attribute_request', SAA)],
     'exhaustive enumeration of credentials and of bounded account histories on the real service with a real database', 'the web framework is a stub')
prop('C24', 'A certificate carries exactly the requested attributes the user has',
     'The user attributes in an issued certificate are exactly those requested by id or name (ignoring case and surrounding space; everything when nothing, blanks or * is requested) with id, name, type and current value as assigned to that user now. '
     'Requesting an attribute the user has not been assigned is refused as the client\'s fault without issuing a certificate.',
     ['inputs', 'histories'], 'all assignments of five attributes x hundreds of requests; all histories of granting, revoking, changing values, names and types for two users',
     'over-granting shows only for particular combinations of request and assignment, or after changes; there are no service tests',
     [SAA, SCA], [('attribute selection in attribute_request', SAA)],
     'exhaustive enumeration of assignments x requests and of bounded histories on the real service with a real database', 'no two attributes of a user differ only by case')
prop('C25', 'A certificate binds the right holder, issuer, validity and connection',
     'An issued certificate names the authenticated user and the public key sent with the request as holder, this authority\'s configured name, id, url and key as issuer, is issued now and valid for the configured time, refers to the configured (or default) revocation list, '
     'has a serial never used before, and verifies with the authority\'s key. Its connection attributes state the true address, time (UTC), key and authority data, and the reply is byte for byte the stored certificate.',
     ['inputs', 'configurations'], 'configurations of key, lifetime, urls and names; clock values over months, years and leap days in several time zones; IPv4 and IPv6 address forms; keys and users',
     'there are no service tests; dates, addresses and configurations are unbounded',
     [SAA, CERT, CONF], [('AttributeAuthority._make_ac, _make_con_att_set', SAA)],
     'exhaustive enumeration of configurations, times, addresses and keys on the real service under a controlled clock', 'the clock stands still during one request')
prop('C26', 'Sessions start only from genuine, trusted and currently valid certificates',
     'The policy authority starts a session if and only if there is at least one certificate and every one is in a supported format and version, verifies, is signed with the recorded key of an authority that is recorded with positive trust now, and is valid now. '
     'One bad certificate refuses the whole request, and a refused request leaves no trace.',
     ['inputs', 'histories', 'configurations'], 'all combinations of signature, trust, validity, issuer, format and version; all ordered sets of up to three certificates of 15 kinds; all histories of trust, key and time changes',
     'every single omitted condition is a way in, and each must hold together with all the others; there are no service tests',
     [SPA, SCP, CERT], [('PolicyAuthority.start_session, _check_cert', SPA)],
     'exhaustive enumeration of certificate defects, sets and bounded histories on the real service with a real database under a controlled clock', 'RSA signatures are taken as unforgeable')
prop('C27', 'A session is bounded by its certificates and recorded completely or not at all',
     'Every session gets a new id from a 160-bit random source. A session ends at the earliest of one day after its start and the end of each of its certificates; the reply and the database agree on id, start and end, and record exactly the presented certificates with their hashes and the calling service. '
     'Whatever statement fails and wherever the process dies, the database holds the whole session or nothing of it.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'all sets of up to three certificates over boundary validities; all histories of up to three requests; a failure and a process kill before and after every SQL statement and at commit',
     'partial records appear only when a failure hits between two particular statements',
     [SPA, SCP], [('PolicyAuthority.start_session', SPA)],
     'exhaustive enumeration of certificate sets and histories, and of all fault and crash points by injection at every SQL statement of the real service', 'sqlite commits are taken as atomic')
prop('C28', 'A certificate serial stands for one certificate for ever',
     'Once a certificate with some serial has been used to start a session, no different certificate with that serial is accepted, in any later request or in the same one, whatever happened in between; presenting the same certificate again is accepted. '
     'The recorded certificate for a serial never changes.',
     ['histories'], 'all histories of sessions with up to two certificates each from a pool sharing serials, with clock changes and service restarts',
     'needs a history of at least two requests with colliding serials',
     [SPA, SCP], [('serial and hash comparison in start_session', SPA)],
     'exhaustive exploration of all bounded request histories on the real service with a real database', 'all histories within the bound')
prop('C29', 'Concurrent requests and evaluations do not influence each other',
     'Two requests served at the same time by one attribute authority yield the certificates each would get alone; two concurrent session starts never mix up sessions, record a serial for two certificates or leave partial records, and unrelated ones both succeed. '
     'Questions to an authority are answered as alone, also when the first requests after a start come together. Independent policies parsed, checked, encoded and evaluated, and independent certificates signed, encoded, decoded and verified in two threads give the same results as alone.',
     ['schedules'], 'all schedules of two threads with one preemption at any line (two preemptions on a grid in the thorough tier)',
     'the tests are single threaded; a mix-up needs one particular interleaving',
     [SAA, SPA, DB, CERT, AST, PAR, INT], [('per request state in attribute_request / start_session', SAA), ('per object state in hgpl', AST)],
     'stateless exploration of the implementation under a controlled scheduler: all schedules of two threads up to a preemption bound', 'preemption between lines of hgaa and hgpl; real threads, one at a time')
prop('C30', 'Configuration values come from the right place',
     'A configuration value is the one of the named section, else of the DEFAULT section, else the built-in default, else nothing; an empty value counts as set, names are case-insensitive, an unknown section behaves like DEFAULT, '
     'and service and client configurations never mix. The values are those in services.ini and clients.ini of the installation, wherever the process is started. Changed configurations are reflected by the next read.',
     ['configurations', 'histories'], 'all placements of a value over section, DEFAULT, and the other side; every name with a built-in value; generated and shipped configuration files read by a fresh process; all histories of setting and removing values up to a length',
     'there are no tests of the configuration',
     [CONF], [('get_conf', CONF)],
     'exhaustive enumeration of placements and change histories against a model', 'complete within the bound')
prop('C31', 'Filling or wiping one service\'s database leaves everything else alone',
     'Populating a service adds exactly the given rows, after removing exactly that service\'s rows if a wipe is asked for; rows of the other service and of test databases are never touched, also when services share one database, and a failed fill without wipe changes nothing. '
     'Building creates the tables of exactly the named services and keeps existing content.',
     ['histories', 'configurations'], 'all histories of filling, wiping and building up to three operations over both services and their test databases, separate and shared',
     'there are no tests of the database tools; damage shows in the other service\'s data',
     [DB, TOOLS, SCA, SCP], [('populate_db', DB), ('build_database', TOOLS)],
     'exhaustive exploration of bounded operation histories against a model, contents read back independently', 'sqlite files')
prop('C32', 'Clients report success only for real success and keep the right key',
     'The clients send exactly what was asked for to the currently configured service, with the public part of the given or freshly made key and never a private key, return the result of the reply only for status 200 without a fault, and raise otherwise. '
     'The key kept after attribute requests is always that of the last successful one.',
     ['histories', 'inputs'], 'all sequences of calls and replies (success, fault, every kind of bad status, unreachable), service changes, arguments and credentials',
     'the client tests need a running server and are not run; replies can be anything',
     [CAA, CPA], [('AttributeAuthorityClient', CAA), ('PolicyAuthorityClient', CPA)],
     'exhaustive exploration of all bounded call/reply sequences on the real clients with a scripted transport', 'the transport is scripted')
prop('C33', 'The authorities describe themselves and whom they trust truthfully',
     'The policy authority lists exactly the attribute authorities recorded now, each once with its current name, url, key and trust level; both services report the configured identity, urls, versions, key and algorithms. '
     'Certificates from an authority recorded from its own self-description start sessions for exactly their lifetime.',
     ['histories', 'configurations'], 'all histories of adding, changing and removing authorities up to a length; all configurations of host, port, names and key',
     'there are no service tests',
     [SPA, SAA], [('trusted_attribute_authorities, info', SPA), ('info', SAA)],
     'exhaustive exploration of bounded histories and configurations on the real services', 'the web framework is a stub')
prop('C34', 'No sequence of requests uses up the services',
     'After any number of granted and refused requests of any kind the authorities still answer every request as before: no request, successful or failing, keeps a database connection or an open file for good.',
     ['histories'], 'all patterns of one or two kinds of requests, evaluate requests included (three thorough), repeated beyond the size of the connection pool',
     'exhaustion appears after dozens of requests; it was there while the tests passed',
     [SAA, SPA, DB], [('database session closed at the end of each request', SAA)],
     'exhaustive exploration of repeated request patterns on the real services with a pooled database', 'repetition bound 24 exceeds the pool limit of 15')
prop('C35', 'Accounts, keys and attributes made with the tools work with the services',
     'A password hash made with the command line tool lets exactly that password log in under the configured pepper; a generated key file opens only with its password and is what the authority then signs with; '
     'generated attributes are exactly those the user is certified for. Wrong commands fail without effect.',
     ['inputs', 'configurations'], 'all passwords and peppers of a list of hard cases, keys, numbers of attributes, wrong commands',
     'there are no tests of the tools',
     [TOOLS, SAA, DB], [('hgaa.tools commands', TOOLS)],
     'exhaustive enumeration of commands and arguments, run on the real tools and checked on the real service', 'bcrypt rounds and key generation replaced by cheap ones')
prop('C36', 'Passwords, the pepper and private keys never leak',
     'Whatever the outcome of a request or of a start and whatever the log level, user passwords, the pepper, private keys, the passphrase of the key and the password of the database do not appear in log records, error messages, replies, stored certificates or what the client sends besides the credentials themselves.',
     ['inputs', 'configurations'], 'all outcomes of an attribute request x log levels x keys; all replies to the client x log levels; all ways a start can fail; all kinds of databases and uses',
     'the tests do not look at logs or errors',
     [SAA, CAA, DB, LOG], [('log and error messages of attribute_request', SAA), ('log messages of the client', CAA)],
     'exhaustive enumeration of request outcomes and log levels; everything emitted is searched for the secrets in several encodings', 'the hash in the debug log is accepted')
prop('C37', 'Logs and services follow the configuration',
     'A logger writes exactly the records at or above its configured level, to its configured file (kept or cleaned on start as configured) and to the console only if configured; the web application offers exactly the services that are enabled and listens at the configured host and port.',
     ['configurations'], 'all configurations of level, file, console and cleaning for service and client loggers; all settings of the service switches',
     'there are no tests of logging or of the service handler',
     [LOG, CONF, 'hgaa/handler.py'], [('make_logger', LOG), ('service selection', 'hgaa/handler.py')],
     'exhaustive enumeration of configurations on the real code', 'the web server is a recorder')

prop('C38', 'Stored policies and certificates stay readable',
     'A policy or certificate that any installation of this version of the formats wrote is read with exactly the content it had, and verifies if it was validly signed; what is written and signed now is in turn read with the same content, and verified, by every other installation. '
     'This holds for every value, size and layout the formats allow.',
     ['inputs', 'histories'], 'all short policies and all field pairs of certificates written by an independent writer in several layouts, plus data stored by the first version of the code',
     'a consistent change of writer and reader passes every round trip test and makes all stored policies and issued certificates unreadable',
     [AST, CERT, LEX], [('ASTEncoder', AST), ('encode/decode of every AC part, ExportFormat, AttributeType', CERT), ('TokenType numbers', LEX)],
     'exhaustive enumeration of bounded contents with an independent writer and reader of the formats as model; every content goes through model and code in both directions', 'complete within the bound; the formats are fixed by the first commit')
prop('C39', 'Databases written by other installations keep working',
     'With a database whose tables and rows another installation of the services wrote, users, attributes, authorities, known certificates and sessions mean the same: the same requests are granted and refused with the same content. '
     'What the services store is found by other installations under the same tables, columns and values.',
     ['histories', 'configurations'], 'all attribute types and values, assignments, certificate formats, already known certificates and trust levels, written with plain SQL into tables of the earlier and of the current version',
     'the tests always start from an empty database made by the code under test',
     [SCA, SCP, SAA, SPA], [('tables and columns', SCA), ('tables and columns', SCP)],
     'exhaustive enumeration of stored states with plain SQL as independent writer and reader; the real services run on every one', 'sqlite only')

prop('C40', 'Every service works on the database its configuration names',
     'However a service or tool uses the database, it is the one configured for that service: the kind, host, port, name, user and password of its section, else of DEFAULT, whatever characters they hold. '
     'All sessions of a service see one database, services with different settings never share one, files are kept over a restart, and an unsupported kind is refused rather than replaced.',
     ['configurations', 'histories'], 'all settings over lists of hard values, alone and in pairs, all placements over sections, all uses of the database, two services by turns; all histories of writes, reads and restarts up to a length',
     'the tests never open a database; passwords and names with special characters led elsewhere while they passed',
     [DB, CONF, TOOLS, SAA, SPA], [('get_engine', DB), ('get_session', DB)],
     'exhaustive enumeration of configurations and histories on the real code; connections are seen by a recording MySQL driver, files by listing them', 'no MySQL server: what the driver is asked for is checked')

prop('C41', 'Evaluate requests need a valid policy and a session that still holds',
     'An evaluate request to the policy authority is refused with a client fault if it names no policy, a stored policy that does not exist, or a policy (given or stored) that is not valid or that the type checker has any issue with, '
     'if an object attribute has neither name nor uid, if the session was never started or is over, or if a certificate of the session is no longer valid, its authority no longer trusted or its key no longer the recorded one. '
     'It is refused, too, if the recorded certificate is not the one the session was started with. Every other request gets through all of these checks, but as evaluation itself is not finished it is given no decision: '
     'no evaluate request returns a grant, and none changes the database.',
     ['inputs', 'histories'], 'all policies of a few lexical pieces, given and stored; all combinations of policy, session and object attributes; all points in time around the ends of session and certificates; all histories of sessions, waits, '
     'changes of trust, keys and restarts up to a length; all single changes of a recorded certificate',
     'there are no tests of the policy authority; which requests get through depends on the history of sessions, trust and time',
     [SPA, SCP, PAR, SEM], [('PolicyAuthority.evaluate', SPA), ('PolicyAuthority._check_cert', SPA)],
     'exhaustive enumeration of requests and histories on the real service against a model of sessions, certificates and trust', 'complete within the bound')

prop('C42', 'Warnings of an evaluation name exactly its causes of UNDEF',
     'After evaluating a policy, every occurrence of an attribute that is unknown, has no value or has a value of a wrong type has been reported at its position and by its name, every comparison of values that cannot be compared has been reported by its operator, '
     'and nothing else has. Warnings belong to the last evaluation only. A decision that is UNDEF, though the policy does not say UNDEF, always has a reported cause; an evaluation asked to raise warnings of a level raises one exactly if it has one at or above that level.',
     ['inputs', 'histories'], 'all pairs of operands under all comparisons; all expressions over comparisons, connectives and negation up to a size with all assignments of values; all sequences of evaluations of one interpreter',
     'the tests look at the decision of a few policies and at no warning',
     [INT, SYM, ERR], [('Interpreter._warn', INT), ('_evaluate_att_node', INT), ('_evaluate_op_node', INT)],
     'exhaustive enumeration of bounded policies and environments on the real interpreter against the reference interpreter, which also yields the causes', 'complete within the bound')
prop('C43', 'Printed certificates, syntax trees and tables show what they hold',
     'The text export and printed form of a certificate and of each of its parts show every field that is set with its value, and nothing for one that is not; the printed form of a syntax tree shows every node with its values, result and place in the tree; '
     'a printed symbol table lists its symbols. Two syntax trees are equal exactly if they are the same policy at the same positions. Showing and comparing change nothing.',
     ['inputs'], 'all subsets of the fields of every part over lists of values and all pairs of parts; all syntax trees of policies up to a size, all pairs of them; all tables of a few symbols',
     'the tests print nothing and compare a few trees',
     [CERT, AST, SYM], [('__str__ of every part, export as TEXT', CERT), ('AST printing and __eq__', AST), ('SymbolTable.__str__', SYM)],
     'exhaustive enumeration of bounded contents against independent printers and structural equality', 'complete within the bound')
prop('C44', 'Clients and services work together as the services declare',
     'What a client asks reaches the service with every argument as the service declares it, and the answer returns with every declared field. For every user, password, key and set of attributes, the certificate a client obtains is for its own key and holds its own attributes only, '
     'and with it a session can be started, found and evaluated against; every other combination fails at the step where it is wrong, and a later success is not hindered by it. The services offer exactly their documented requests, none that are internal.',
     ['inputs', 'histories'], 'all combinations of user, password, authority, format, policy and request, over both clients and both services in one process, carried as their declared interface says',
     'the tests start neither the services nor the clients',
     [CAA, CPA, SAA, SPA], [('request methods', CAA), ('session requests', CPA), ('@ladonize interface', SAA), ('@ladonize interface', SPA)],
     'exhaustive enumeration of ways through the real clients and services over a model of the JSON-WSP carrier built from the declared interface', 'the HTTP transport is a stand-in')


def main():
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': PY + ' -c "import Crypto, sqlalchemy, bcrypt"',
         'checks': [{'property': p['id'], 'quick_cmd': '%s check.py %s' % (PY, p['id']), 'thorough_cmd': 'VERIF_TIER=thorough %s check.py %s' % (PY, p['id']), 'technique': 'model checking: ' + p['technique'],
                     'level': 'model_checking', 'level_note': p['note']} for p in P],
         'not_applicable': []}
    with open('/verif/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
