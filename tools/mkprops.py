#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

GR = "include/graphqlservice/internal/Grammar.h"
ST = "src/SyntaxTree.cpp"
SV = "src/GraphQLService.cpp"
SVH = "include/graphqlservice/GraphQLService.h"
VA = "src/Validation.cpp"
RS = "src/GraphQLResponse.cpp"

prop("C01", "Documents parse exactly per the grammar, with the structure as written",
 "Every executable or type-system text in the GraphQL June 2018 grammar is accepted and every text outside it (including code points above U+FFFF outside of escape sequences, and unpaired surrogates) is rejected with an exception; nothing else (no crash, no partial tree) can happen, as long as the nesting of the text fits the call stack. "
 "The parsed tree of an accepted text contains exactly the definitions, selections, aliases, arguments, directives, types and values that were written, in document order, each with the line and column (in bytes) where it starts, and white space, commas and comments between tokens never change it.",
 ["inputs"], "all documents and all near-miss texts, under every placement of ignored tokens",
 "The parser tests parse about a dozen fixed texts and mostly only check that parsing succeeds or throws; the set of texts is unbounded.",
 [GR, ST, "include/graphqlservice/internal/SyntaxTree.h"],
 [("PEG rules", GR), ("AST selectors and transforms", ST)],
 observe=["peg::parseString / parseSchemaString result tree or exception"])

prop("C02", "String and number literals denote the values the language defines",
 "A quoted string literal in a document denotes its characters with every escape sequence (including \\uXXXX and surrogate pairs, as UTF-8) decoded, and a block string denotes its text with the escaped triple quote replaced, less the indentation common to all lines but the first and the blank lines at its ends (June 2018, BlockStringValue); integer, float, boolean, null, enum, list and object literals denote the value written. "
 "A resolver that receives the literal as an argument sees exactly that value.",
 ["inputs"], "all literals of every kind, at any nesting, in argument position or as variable default",
 "Existing tests use a handful of literals and never look at the decoded text of an escape sequence.",
 [GR, ST, SV], [("unescaped_view", ST), ("literal to value conversion", SV)],
 observe=["arguments received by a resolver"])

prop("C03", "Validation of operations and fragments accepts exactly the valid documents",
 "With well-formed selections, a document is reported valid only if its operation names are unique, an anonymous operation is alone, each subscription has a single root field, every operation's root type exists, fragment names are unique, every fragment is on an existing composite type, used, spread only where defined, free of cycles and applicable to the type it is spread on, and it has no type-system definitions; a document meeting all of these and the other validation rules is reported valid. "
 "A document that is reported invalid carries at least one error, and no document makes validation crash or fail to terminate.",
 ["inputs", "programs"], "all executable documents over a schema with objects, interfaces and unions",
 "The validation tests check the roughly 130 example documents of the specification, one rule at a time; combinations, nesting and fragment graphs are not covered.",
 [VA], [("ValidateExecutableVisitor::visit", VA), ("visitFragmentSpread / visitInlineFragment", VA)],
 observe=["Request::validate error list"])

prop("C04", "Validation of field selections accepts exactly the valid documents",
 "A document is reported valid only if every selected field exists on its parent type, scalar and enum fields have no sub-selection, object, interface and union fields have one, and any two fields that can produce the same response name on the same object are the same field with the same arguments and compatible sub-selections; documents that satisfy this and the other rules are reported valid. "
 "An invalid selection is reported wherever it occurs, including in a repeated occurrence of a field, inside fragments and at any depth.",
 ["inputs", "programs"], "all selection sets, including repeated, aliased and fragment-supplied fields",
 "Field merging is quadratic in the selections of a document; the tests try a few fixed pairs.",
 [VA], [("visitField", VA), ("ValidateField comparison", VA)],
 observe=["Request::validate error list"])

prop("C05", "Validation of arguments and literal values accepts exactly the valid documents",
 "A document is reported valid only if every argument of a field or directive is defined and given once, every required argument without a default is present and not null, and each literal (including list elements, nested input objects, their required and unknown fields, enum values, IDs in canonical Base64 and integers in range) is acceptable for the declared input type; documents that satisfy this and the other rules are reported valid.",
 ["inputs"], "all argument lists and literals over all input types with list and non-null wrappers",
 "Tests cover the specification's examples only, not the product of literal kinds and type wrappers.",
 [VA], [("validateInputValue", VA)], observe=["Request::validate error list"])

prop("C06", "Validation of variables accepts exactly the valid documents",
 "A document is reported valid only if, for each operation, variable names are unique, variable types are input types, defaults match their type, every variable used directly or through fragments is defined by that operation and every defined variable is used, and each use is in a position whose type the variable's type and default allow; documents that satisfy this and the other rules are reported valid.",
 ["inputs", "programs"], "all operations, fragment graphs and variable positions",
 "The tests check single-operation, single-fragment examples.",
 [VA], [("visitOperationDefinition", VA), ("validateVariableType", VA)], observe=["Request::validate error list"])

prop("C07", "Validation of directives accepts exactly the valid documents",
 "A document is reported valid only if every directive is defined by the schema, is used in a location its definition allows, appears at most once at each location, and has all and only its defined arguments with acceptable values, including when no argument list is written at all; documents that satisfy this and the other rules are reported valid.",
 ["inputs"], "all placements of built-in and custom directives",
 "Tests cover three fixed documents.",
 [VA], [("visitDirectives", VA)], observe=["Request::validate error list"])

prop("C08", "Validation verdicts depend only on the document, and gate execution",
 "The errors reported for a document are a function of the schema and the document alone: they are the same whatever documents, valid or not, were validated by the same service before, and validating again gives the same verdict. "
 "No resolver runs, and no subscription is registered, for a document with validation errors.",
 ["histories"], "all sequences of validate, resolve and subscribe calls on one service instance",
 "The tests validate one document per fixture object or do not look at order; leaks between documents need particular sequences.",
 [VA, SV], [("reset of visitor state", VA), ("validate before execute", SV)],
 state=[("visitor working sets", "fragments, variables and used names of the current document", VA), ("validated flag", "set only after a clean validation", SVH)],
 observe=["Request::validate", "Request::resolve", "Request::subscribe"])

prop("C09", "The response contains exactly the selected fields, in order",
 "For a valid operation, each object in the response has one entry per selected response name that applies to the object's type (after expanding fragments by type condition, merging repeats into the first occurrence and removing skipped selections), in the order of first appearance in the document, and no others. "
 "Each entry holds the value its resolver produced, lists keep their length and order, nulls stay null, and nested objects follow the same rule recursively.",
 ["inputs", "programs"], "all valid operations and all object graphs the resolvers can return",
 "Tests compare a few hand-written queries against one mock data set.",
 [SV, SVH], [("SelectionVisitor", SV), ("Object::resolve", SV), ("ModifiedResult::convert", SVH)],
 observe=["document returned by Request::resolve", "resolver calls"])

prop("C10", "@skip and @include remove exactly the selections they should",
 "A field, fragment spread or inline fragment is left out of the response, and its resolvers are not called, exactly when its @skip condition is true or its @include condition is false, whether the condition is a literal, a variable or a variable default and however the directives are combined and ordered. "
 "Leaving one occurrence out never affects another occurrence of the same response name.",
 ["inputs"], "all combinations of the two directives at all selection kinds and nesting levels",
 "Tests cover single directives with literal conditions; not both together, not repeated fields.",
 [SV], [("DirectiveVisitor::shouldSkip", SV)], observe=["document returned by Request::resolve", "resolver calls"])

prop("C11", "A failing field yields null and a precise error, and disturbs nothing else",
 "When a resolver throws or its future fails, the response is still produced: that field (or that list element, at its own index) is null, exactly the errors raised are reported, each with its message, the location of the field and the path of response names and list indices leading to it, and every other field has the value it would have had. "
 "The list of errors is present exactly when there is at least one error.",
 ["inputs", "fault_sequences"], "all placements of failures in all operations and object graphs, thrown synchronously or from futures",
 "The tests force one error in one field.",
 [SV, SVH], [("error path construction", SV), ("exception to error conversion", SV), ("list element handling", SVH)],
 observe=["errors and data of the document returned by Request::resolve"])

prop("C12", "Resolvers receive exactly the arguments the request specifies",
 "A resolver receives, for each argument written in the document, the literal or the value of the variable: the supplied value if there is one, else the variable's default, else null, in the operation that is executed; variables that the operation does not declare are never visible. "
 "Converting an argument to its declared type succeeds exactly when the value has that shape (with nullable and list wrappers), yields the same value, and otherwise produces an error for that field.",
 ["inputs"], "all variable declarations, supplied variables and argument expressions, for all scalar and wrapper types",
 "The argument tests cover eight fixed values.",
 [SV, SVH], [("OperationDefinitionVisitor::visit", SV), ("ValueVisitor", SV), ("ModifiedArgument", SVH)],
 observe=["arguments received by a resolver", "errors in the response"])

prop("C13", "Resolvers see the directives of every enclosing scope",
 "Each resolver call is told the directives, with evaluated arguments, of the operation, of the field itself, and of the enclosing fragment definitions, fragment spreads and inline fragments of the same selection set; where nested fragments repeat a directive name the innermost one wins, and directives never leak to sibling or later selections.",
 ["inputs"], "all nestings of fragments carrying custom directives",
 "One test walks one fixed nested query.",
 [SV], [("FragmentDirectives merging", SV)], observe=["parameters received by a resolver"])

prop("C14", "The outcome does not depend on launch policy or future timing",
 "Resolving the same operation gives the same response document whether the request is deferred or asynchronous and whichever way field results are produced (immediate values, deferred futures, futures completed by other threads in any order), and each resolver is called exactly once. "
 "Every returned future becomes ready, with the document, once the field results it depends on are.",
 ["schedules"], "all completion orders of field futures and both launch policies",
 "Tests use one mock with a fixed timing; a schedule-dependent mix-up would appear only under particular completion orders.",
 [SV, SVH], [("std::async composition", SV), ("ModifiedResult futures", SVH)],
 observe=["document returned by Request::resolve", "resolver call log"])

prop("C15", "Mutations run their root fields serially in document order",
 "The root fields of a mutation are executed one after the other in document order, under every launch policy: no two root resolvers ever run at the same time, and the resolution of a root field, including its future and all its sub-fields, finishes before the next root field's resolver is called.",
 ["schedules", "inputs"], "all mutations with several root fields, all launch policies and thread schedules",
 "Tests have one single-field mutation.",
 [SV], [("mutation launch policy override", SV)], observe=["order and overlap of resolver calls"])

prop("C16", "Exactly the named operation runs, and every request is answered by a document",
 "A request with an operation name executes exactly the operation of that name, and one without a name executes the first operation of the document; the root object used is the one for the operation's kind. "
 "A missing operation, a subscription passed as a request, or a validation failure is answered with a document whose data is null and which carries errors, not with an exception.",
 ["inputs"], "all multi-operation documents and operation names",
 "Tests run single-operation documents nearly always.",
 [SV], [("findOperationDefinition", SV), ("Request::resolve", SV)], observe=["document returned by Request::resolve", "resolver calls"])

prop("C17", "Events reach exactly the live, matching subscriptions, once each",
 "Delivering an event calls the callback of each subscription that is registered at that moment for that field and whose field arguments and field directives all match the event, exactly once (in registration-key order, unless the event is delivered asynchronously), and calls no other callback; callbacks do not throw. "
 "Each such callback gets the result of executing that subscription's own selection with its own variables, state and fragments against the event's object; a failure inside one is reported in that one's document.",
 ["histories", "inputs"], "all histories of subscribe, unsubscribe and deliver with all argument and directive combinations",
 "Tests have one to two subscriptions and one delivery each.",
 [SV], [("Request::deliver", SV), ("SubscriptionDefinitionVisitor", SV)],
 state=[("subscription registry", "key to registration", SVH), ("listeners", "field name to keys", SVH)],
 observe=["subscription callbacks and their documents"])

prop("C18", "Subscription keys identify exactly one live registration",
 "Subscribing either fails with an error and registers nothing, or returns a key different from that of every live subscription and registers the one named operation of the document; removing a key removes that registration and no other, and removing an unknown key changes nothing. "
 "The registration remains usable for as long as it is live, whatever happens to the caller's copy of the document.",
 ["histories"], "all interleavings of subscribing and unsubscribing, including key reuse, and multi-operation documents",
 "Tests subscribe and unsubscribe once.",
 [SV], [("Request::subscribe / unsubscribe", SV)], state=[("next key", "key for the next registration", SVH)],
 observe=["returned keys", "later deliveries"])

prop("C19", "Subscribe and unsubscribe notifications bracket each registration",
 "With the notifying form of subscribe and unsubscribe, the subscription field's resolver runs once with the subscribe context after registration and once with the unsubscribe context before removal, with the subscription's arguments, directives and state, under every launch policy. "
 "A subscribe whose registration fails, or whose setup throws an exception, is reported to the caller with the text of the original error and leaves nothing registered.",
 ["histories", "fault_sequences"], "all histories with notifying calls and failing notifications",
 "Tests check one success path.",
 [SV], [("Request::subscribe(launch,...)", SV), ("Request::unsubscribe(launch,...)", SV)], observe=["resolver calls", "returned future"])

prop("C20", "Response values behave as an ordered, typed, independent document tree",
 "A map keeps its members in insertion order, refuses a second member of the same name leaving the first unchanged, and finds exactly the members it has; a list keeps its elements in order; copies are independent of the original; equality holds exactly for equal content. "
 "Reading or writing a value as a type it does not hold raises an error and changes nothing, and releasing a value yields its content once.",
 ["histories"], "all sequences of operations on values of all types",
 "One test covers one comparison.",
 [RS, "include/graphqlservice/GraphQLResponse.h"], [("Value::emplace_back / find / operator[]", RS)],
 state=[("map members and index", "insertion-ordered members with a sorted name index", RS)], observe=["Value accessors"])

prop("C21", "JSON text and response values convert into each other without loss",
 "Writing a value as JSON produces text that denotes exactly that value (all members and elements in order, strings escaped, numbers exact), and reading JSON text gives exactly the value it denotes, so that writing and reading back is the identity for null, booleans, strings, 32-bit integers, finite floats, lists and maps. "
 "An integer which fits in 64 bits but not in the supported 32 is refused with an error rather than altered.",
 ["inputs"], "all values, all nestings, all unicode strings",
 "No test reads JSON back, and few strings need escaping.",
 ["src/JSONResponse.cpp", RS], [("StreamWriter / ResponseHandler", "src/JSONResponse.cpp")], observe=["toJSON / parseJSON"])

prop("C22", "IDs and Base64 text convert into each other exactly",
 "Encoding bytes gives their padded Base64 text and decoding that text, with or without padding, gives the same bytes back; text that is not canonical Base64 (foreign characters, impossible lengths, misplaced padding, stray bits) is refused with an error. "
 "ID arguments, results and values use exactly this correspondence.",
 ["inputs"], "all byte strings and all candidate texts",
 "Tests decode a few fixed IDs.",
 ["src/Base64.cpp", RS], [("Base64::toBase64 / fromBase64", "src/Base64.cpp")], observe=["Base64 API", "Value of ID type"])

prop("C23", "Introspection describes exactly the schema in force",
 "The introspection fields report exactly the types, fields, arguments, default values, interfaces, possible types, enum values, input fields, directives, wrappers, descriptions and root operation types of the schema of the service, fields, arguments, input fields and enum values in definition order; deprecated fields and enum values appear exactly when asked for, with their reason; looking up a type by name finds it, or gives null and an error; and the type name field gives the concrete type of every object.",
 ["inputs", "configurations"], "all schemas and all introspection queries",
 "Tests run one fixed introspection query on one schema.",
 ["src/Introspection.cpp", "src/Schema.cpp"], [("introspection::Schema / Type / Field ...", "src/Introspection.cpp"), ("schema types", "src/Schema.cpp")],
 observe=["results of __schema, __type and __typename"])

prop("C24", "A service built without introspection reveals no schema",
 "When introspection is turned off for a service, every query for schema or type metadata at any place in a document is rejected by validation and answers no schema data, while the type name field and all ordinary fields work as before.",
 ["inputs", "configurations"], "all queries against services with introspection disabled",
 "Tests try two fixed queries.",
 ["src/Schema.cpp", VA, "src/SchemaGenerator.cpp"], [("supportsIntrospection", "src/Schema.cpp")], observe=["Request::validate / resolve"])

prop("C25", "Client-side conversion of variables and responses is exact",
 "Serializing client variables and parsing service responses keep every value, list element (with order and count) and null exactly, for every scalar type under every combination of nullable and list wrappers; a serialized variable parsed back as a response of the same shape is the same value. "
 "Splitting a service response returns its data and every error with its message, locations and path segments.",
 ["inputs"], "all values of all wrapper combinations; all service responses",
 "Tests run three fixed client queries.",
 ["src/GraphQLClient.cpp", "include/graphqlservice/GraphQLClient.h"], [("ModifiedVariable / ModifiedResponse", "include/graphqlservice/GraphQLClient.h"), ("parseServiceResponse", "src/GraphQLClient.cpp")],
 observe=["client API results"])

prop("C26", "A generated service is the schema it was generated from",
 "For every consistent schema document and every choice of options (stubs, separate files, introspection), the generator produces sources that compile and a service whose introspection equals that schema, with every description, deprecation and default value, whose accessors receive each argument with its declared type, or its default when it is left out, and return each field with its declared type and wrappers, and which executes requests as the schema says, with enum values under their GraphQL names.",
 ["programs", "configurations"], "all schema documents and generator options",
 "Tests use two fixed schemas.",
 ["src/SchemaGenerator.cpp", "src/SchemaLoader.cpp"], [("schemagen", "src/SchemaGenerator.cpp")], observe=["generated files, compiled and executed"])

prop("C27", "The generators refuse inconsistent schemas and requests",
 "A schema document that refers to undefined types (in fields, arguments, directives, unions, interfaces, extensions or operations), defines a type, field, argument, enum value, member, operation or directive twice, overrides a built-in type or directive, uses types where they are not allowed, makes input types contain themselves, gives a non-null input a null default or a default with variables, implements an interface without its fields, lacks a query type, mixes in executable definitions or is not a document at all makes schemagen fail with a non-zero status and an explanation which names what is wrong; consistent schema documents are accepted. "
 "In the same way clientgen refuses every request document which is invalid for the schema or lacks the operation it is asked for, and accepts every valid one.",
 ["inputs"], "all schema documents and requests, with any number of defects or none",
 "There are no generator error tests.",
 ["src/SchemaLoader.cpp", "src/GeneratorLoader.cpp", "src/RequestLoader.cpp"], [("SchemaLoader::validateSchema", "src/SchemaLoader.cpp")], observe=["exit status of schemagen and clientgen"])

prop("C28", "A generated client speaks for exactly the request it was generated from",
 "For every valid request document, schema and choice of operation, the generated client code compiles, carries a request text and a pre-validated request object with the same definitions as the document, declares each variable and response field with the type and wrappers the schema gives it (with all fields which any selection or fragment of the request adds to a response name), serializes its variables to exactly the values given under their GraphQL names, "
 "and parses any response of that operation into typed fields with the same values, lists, enums and nulls, refusing those whose leaf values do not have the declared type.",
 ["programs"], "all operations over all schemas",
 "Tests use four fixed client documents.",
 ["src/ClientGenerator.cpp", "src/RequestLoader.cpp"], [("clientgen", "src/ClientGenerator.cpp")], observe=["generated files, compiled and executed"])

prop("C29", "Selection set hooks bracket the resolvers of each object exactly once",
 "For every object whose selection set is executed, its begin hook runs exactly once before any of its resolvers, and, unless the begin hook throws, its end hook runs exactly once after all of its resolvers have been called, with resolvers called in document order in between. "
 "Both hooks see the request state, context, operation directives and path of that selection set, and an exception from either makes that object null with one error and leaves the others alone.",
 ["inputs", "schedules"], "all operations and object graphs, with hooks that fail or not, under every launch policy",
 "No test overrides the hooks with anything observable.",
 [SV, SVH], [("Object::resolve", SV), ("Object::beginSelectionSet / endSelectionSet", SVH)],
 observe=["hook and resolver call log"])

prop("C30", "The launch policy decides where work runs, and nothing waits too early",
 "The launch policy of a request or of an event (deferred when none is given) is the one every hook and resolver of it is told. Under the deferred policy everything, including the callbacks of subscriptions, runs on demand on the thread which asks for the result; under the asynchronous one a query is executed and answered without anybody waiting for it. "
 "Under every policy no field's result is waited for before all resolvers of its selection set and its end hook have run (the root fields of a mutation apart), so results may depend on the end hook; a future which is abandoned is a field error.",
 ["schedules", "inputs"], "all operations and events, all launch policies and overloads, all ways in which results become available",
 "Tests use ready values and two launch policies with one mock and look only at the response.",
 [SV, SVH], [("Object::resolve", SV), ("ModifiedResult::convert", SVH), ("Request::resolve", SV), ("Request::deliver", SV)],
 observe=["launch policy and thread of each hook, resolver and callback", "state of the returned future before it is waited for"])

prop("C31", "Requests made at the same time by several threads do not disturb each other",
 "Several threads may resolve requests on one service at the same time, each with its own parsed document or sharing one which is already marked as validated (as generated clients do), and several services may share one schema: each request, valid or not, calls the resolvers and hooks, sees the state, arguments and directives, and gets the document (or the errors) which it would have got alone.",
 ["schedules", "inputs"], "all sets of concurrent requests and all thread schedules",
 "Tests make one request at a time.",
 [SV, "src/Validation.cpp", SVH], [("Request::validate", SV), ("ValidateExecutableVisitor", "src/Validation.cpp"), ("ast_node::unescaped_view", "src/SyntaxTree.cpp"), ("Schema::WrapType", "src/Schema.cpp")],
 observe=["documents returned to each thread", "hook and resolver call log by request state"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
