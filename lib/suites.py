"""Which parts decide which property."""
SUITES = {p: [('suite_exec', 'check')] for p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C29')}

TECH, NOTE = {}, {}
_EXEC = 'TLA+ reference semantics of execution (Exec), trace validation with TLC of recorded executions'
for p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C29'):
    TECH[p] = _EXEC
    NOTE[p] = ('Every recorded execution (hooks, resolver calls with arguments and directives, response) of seeded random valid requests on random '
               'services is checked by TLC against the plan and event machine of Exec.tla; sampled, not exhaustive. Trusts the harness and TLC.')

SUITES['C13'] = [('suite_exec', 'check_scopes')]
TECH['C13'] = _EXEC + ', and of subscriptions (Subs)'
NOTE['C13'] += ' Includes events and the notifying calls of subscriptions.'
for p in ('C14', 'C15', 'C29'):
    TECH[p] = _EXEC + '; TLC explores every order of the events of small requests and enumerates all their schedules (ExecMC), which are replayed'
    NOTE[p] += ' Exhaustive over ways of producing results, completion orders and launch policies for ten small requests.'
SUITES['C30'] = [('suite_exec', 'check_policy')]
TECH['C30'] = _EXEC + ', and of subscriptions (Subs); all schedules of small requests (ExecMC) are replayed'
NOTE['C30'] = ('Random requests and events under every launch policy and overload, with results which become available at once, on demand, from other threads, at the end of their selection set, or never (broken promises); '
               'TLC checks the policy and thread of every recorded call. Exhaustive for the schedules of ten small requests, sampled beyond. Trusts the harness and TLC.')
SUITES['C31'] = [('suite_exec', 'check_parallel')]
TECH['C31'] = _EXEC + ' made concurrently: each request projected from the common log'
NOTE['C31'] = 'Random requests made by 2 to 8 threads at once on one service; schedules are those of the operating system, not enumerated. Trusts the harness and TLC.'

_VALID = 'TLA+ definition of document validity (Valid), trace validation with TLC of recorded verdicts'
for p in ('C03', 'C04', 'C05', 'C06', 'C07', 'C08'):
    SUITES[p] = [('suite_valid', 'check')]
    TECH[p] = _VALID
    NOTE[p] = ('TLC decides with Valid.tla whether the verdict recorded for each document (random, valid or with one or two seeded mistakes, random schemas) is the right one, '
               'in both directions; sampled, not exhaustive. Trusts the harness, the document printer and TLC.')

_SUBS = 'TLA+ state machine of subscriptions (Subs); TLC enumerates all short histories (SubsMC) which are replayed into the library; trace validation of these and of random histories'
for p in ('C17', 'C18', 'C19'):
    SUITES[p] = [('suite_subs', 'check')]
    TECH[p] = _SUBS
    NOTE[p] = ('Exhaustive for histories of 4 (thorough: 5) steps over 3 subscriptions and 3 events; sampled for longer histories with random documents, arguments, directives and '
               'launch policies. Single-threaded calls. Trusts the harness and TLC.')

SUITES['C01'] = [('suite_parse', 'check')]
TECH['C01'] = 'TLA+ definition of the document language (Parser: tokens, grammar, tree, places); TLC parses every text itself and compares with the tree the library made'
NOTE['C01'] = ('Exhaustive for short token sequences in a few contexts, sampled for longer texts (from the grammar, and with tokens or characters changed). Trusts the harness and TLC.')
SUITES['C02'] = [('suite_literal', 'check')]
TECH['C02'] = 'TLA+ definition of literals (Parser, LiteralTrace); TLC evaluates every literal itself and compares with the value a resolver received'
NOTE['C02'] = ('Exhaustive for short texts over the characters of numbers, strings and block strings; sampled beyond. Doubles are compared through their decimal digits. Trusts the harness and TLC.')
SUITES['C20'] = [('suite_value', 'check')]
TECH['C20'] = 'TLA+ machine of response values (ValueOps); TLC enumerates all short histories and draws long random ones (ValueMC), which are replayed; trace validation of the whole pool after every step'
NOTE['C20'] = ('Exhaustive for histories of 3 (thorough: 4) operations over four menus of about 13 operations on two variables, sampled for histories of 30 and 60. Trusts the harness and TLC.')
SUITES['C21'] = [('suite_text', 'check_json')]
TECH['C21'] = 'TLA+ grammar and denotation of JSON text (JsonText); TLC reads every text itself and compares with what the library wrote for a value or read from a text'
NOTE['C21'] = 'Random values and texts, exhaustive for short number texts and all characters below U+0180. The nearest double of a decimal text is taken from Python. Trusts the harness and TLC.'
SUITES['C22'] = [('suite_text', 'check_base64')]
TECH['C22'] = 'TLA+ definition of Base64 (Values); TLC converts every byte string and text itself and compares with what each way of converting in the library gave'
NOTE['C22'] = 'Exhaustive for single bytes, short texts over a small alphabet and single-byte damage; random beyond. Trusts the harness and TLC.'
SUITES['C25'] = [('suite_client', 'check')]
TECH['C25'] = 'TLA+ definition of wire and typed values and of service responses (Client); trace validation with TLC of recorded conversions'
NOTE['C25'] = 'Every scalar type under 16 combinations of wrappers with random values, and random service responses; sampled. Generated enum and input types are covered by C28. Trusts the harness and TLC.'
SUITES['C23'] = [('suite_intro', 'check')]
TECH['C23'] = 'TLA+ definition of introspection (Introspect, inside the execution semantics of Exec); trace validation with TLC of recorded executions'
NOTE['C23'] = 'Random schemas with descriptions, deprecations and defaults; the standard introspection query and random metadata selections; sampled. Trusts the harness and TLC.'
SUITES['C24'] = [('suite_intro', 'check_none')]
TECH['C24'] = 'TLA+ definition of document validity and execution (Valid, Exec) for services without introspection; trace validation with TLC of recorded verdicts and executions'
NOTE['C24'] = 'Random schemas whose objects lead back to the query type, random documents with metadata at any depth; sampled. Trusts the harness and TLC.'
SUITES['C26'] = [('suite_gen', 'check')]
TECH['C26'] = 'TLA+ definition of execution and introspection (Exec, Introspect), applied to services generated by schemagen, compiled and executed; trace validation with TLC'
NOTE['C26'] = 'Random schema documents (all kinds of types, extensions, wrappers, defaults, descriptions, directives) under random generator options, with random requests; sampled. Trusts the mock getters, the harness, g++ and TLC.'
SUITES['C27'] = [('suite_schema', 'check')]
TECH['C27'] = 'TLA+ definition of consistent schema documents and of the explanations for others (Parser, SchemaDoc) and of valid requests (Valid); TLC reads every schema text itself and judges the verdicts recorded from schemagen and clientgen'
NOTE['C27'] = 'A table of short documents, random schema documents with seeded mistakes of twenty kinds, and random requests; sampled. Trusts TLC and the printer of requests.'
SUITES['C28'] = [('suite_cgen', 'check')]
TECH['C28'] = 'TLA+ definition of what a client is for a schema and a request (ClientGen on Client and Parser); clients generated by clientgen, compiled and used; trace validation with TLC of their texts, types, variables and responses'
NOTE['C28'] = 'Random schemas and valid requests of every operation type, the standard introspection query, several operations in a document; random variables and responses, well-formed or not; sampled. Trusts the generated drivers, g++ and TLC.'
