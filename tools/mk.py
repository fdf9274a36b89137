#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
        technique=technique, note=note))

prop("C01", "HTTP annotations are read as declared",
 "For every valid .proto file, the HTTP bindings baron reads for each unary rpc - verb, path, body, custom patterns, additional bindings - are exactly those the google.api.http annotations declare, and the service and rpc names and types are the declared ones. The layout of the file, its comments and everything else in it make no difference. A form of annotation baron does not support is refused with an error, never read as something else.",
 ["inputs"], "all valid .proto files with one service, in all layouts and with all comments",
 "The parser tests read a dozen hand-written services in one layout; comments, quotes, other options and tricky names between the tokens are unlimited.",
 ["svcdef/svcparse/scanner.go", "svcdef/svcparse/lexer.go", "svcdef/svcparse/parser.go"],
 [("service parser", "svcdef/svcparse/parser.go: ParseService, ParseMethod, ParseHttpBindings"), ("scanner", "svcdef/svcparse/scanner.go: ScanUnit, FastForward")],
 "runtime monitoring: differential oracle (protoc descriptors) over parses of generated files",
 "Generated and listed files; protoc is trusted to say what a file means. Not exhaustive.",
 observe=["the parsed service", "protoc's descriptor set"])

prop("C02", "Reading a definition always ends with a service or an error",
 "Whatever text is given as a service definition, reading it ends with a service or an error: it does not crash or hang. A definition cut off within its service is an error. How the text is delivered (at once, in pieces) makes no difference, and where it cannot be read to its end that is an error.",
 ["inputs", "fault_sequences"], "all byte strings, delivered in all ways, with a read error at any point",
 "The tests read well-formed inputs whole; truncated, damaged and adversarial text is a space they do not enter.",
 ["svcdef/svcparse/scanner.go", "svcdef/svcparse/lexer.go", "svcdef/svcparse/parser.go"],
 [("rune reader", "svcdef/svcparse/scanner.go: RuneReader"), ("lexer buffer and pushback", "svcdef/svcparse/lexer.go: GetToken, UnGetToken"), ("error returns", "svcdef/svcparse/parser.go")],
 "runtime monitoring: crash, hang and outcome monitor on a supervised process over mutated and truncated inputs",
 "Mutations, every cut of some files, and token soup, in a process of its own with a 60 s watchdog.",
 observe=["worker process exit and reply"])

prop("C03", "A parse depends on its own input only",
 "The outcome of reading a definition depends on its text only: not on what was read before in the same process, whether that succeeded or failed midway, nor on what is read at the same time. Concurrent readings do not race.",
 ["histories", "schedules"], "all sequences and all concurrent schedules of readings",
 "Each test reads one text in a fresh scanner, or several well-formed ones in a fixed order; no test reads concurrently.",
 ["svcdef/svcparse/scanner.go", "svcdef/svcparse/lexer.go", "svcdef/svcparse/parser.go", "svcdef/svcdef.go"],
 [("scanner state", "svcdef/svcparse/scanner.go: SvcScanner, RuneReader"), ("oneof grouping", "svcdef/svcdef.go: New")],
 "runtime monitoring: race detector and history-independence oracle over sequential and concurrent parses",
 "References come from fresh processes; the race detector judges the schedules that occurred.",
 state=[("brace level, definition state", "where in the file the scanner is", "svcdef/svcparse/scanner.go")])

prop("C04", "The service definition matches the protobuf definition",
 "The definition baron derives from the generated Go code and the .proto files lists exactly the messages, fields, oneofs, maps and enums of the definition, each field with its protobuf name, type and cardinality. Its service has exactly the unary rpcs declared, with their request and response types.",
 ["inputs", "programs"], "all .proto files with one service in proto3",
 "The tests derive a handful of definitions and check single fields of them.",
 ["svcdef/svcdef.go", "svcdef/resolvetypes.go", "svcdef/consolidate_http.go"],
 [("AST reading", "svcdef/svcdef.go: New, NewService, NewMessage, NewField, NewFieldType, NewMap"), ("type resolution", "svcdef/resolvetypes.go: resolveTypes")],
 "runtime monitoring: differential oracle (protoc descriptors) over definitions derived from generated files",
 "Well-known types are named but not resolved, which the comparison allows. protoc and its Go plugins are trusted.")

prop("C05", "Each request field has the one place its annotation gives it",
 "For every HTTP binding, each field of the request is taken from exactly one place: from the path if the path template names it, else from the body if the annotation's body names it or is \"*\", else from the query. Every declared binding is present once with its verb and path.",
 ["inputs", "programs"], "all bindings of all services",
 "The tests check locations for single bindings; combinations of path, body and query over field names and several bindings are not covered.",
 ["svcdef/consolidate_http.go"],
 [("location of a parameter", "svcdef/consolidate_http.go: paramLocation, getPathParams"), ("binding assembly", "svcdef/consolidate_http.go: assembleHTTPParams, getVerb")],
 "runtime monitoring: differential oracle (protoc descriptors) over bindings of derived definitions",
 "A oneof has one place: members of a oneof in the path or as the body are not generated.")

prop("C06", "Generated code compiles",
 "For every valid service definition and every choice of transports and client, baron succeeds and all the code it writes compiles together with the code of protoc's plugins.",
 ["inputs", "programs", "configurations"], "all services in proto3 without name collisions in Go, all transports, with and without client",
 "The repository's tests render templates for fixed services and compile none of them.",
 ["gengokit/generator/gen.go", "gengokit/httptransport/httptransport.go", "gengokit/service/services.go", "gengokit/template/template.go", "cmd/baron/main.go", "svcdef/svcdef.go"],
 [("decoder code", "gengokit/httptransport/httptransport.go: GenQueryUnmarshaler, createDecodeConvertFunc"), ("templates", "gengokit/template"), ("formatting", "gengokit/generator/gen.go")],
 "runtime monitoring: the tool run on generated services, its output judged by the Go compiler",
 "go-kit, mux and nats.go are replaced by packages of the same API; gRPC and protobuf are real.")

prop("C18", "Go names are those protoc-gen-go gives",
 "For every protobuf identifier, the Go name baron computes is the one protoc-gen-go gives to a field, message or rpc of that name. The derived definition pairs each protobuf field name with the Go name it has in the generated code.",
 ["inputs"], "all protobuf identifiers",
 "A name function has infinitely many inputs; the tests try a few.",
 ["pkg/strs.go", "svcdef/svcdef.go", "svcdef/consolidate_http.go"],
 [("Go naming", "pkg/strs.go: GoCamelCase"), ("protobuf name of a field", "svcdef/svcdef.go: NewField")],
 "runtime monitoring: differential oracle (protoc-gen-go) over an exhaustive set of short identifiers and generated longer ones",
 "Exhaustive for identifiers of up to 6 (thorough: 8) letters over {a,B,1,_}.")

prop("C19", "Path parameters are found where the template puts them",
 "For every URL path template and every path which fits it, the parameters found are those the template names, each with the value of its own segment. A path with another number of segments is an error, and no template or path crashes the search.",
 ["inputs"], "all templates with whole-segment parameters, all paths",
 "Two templates are tested.",
 ["gengokit/httptransport/embeddable_funcs.go"],
 [("path matching", "gengokit/httptransport/embeddable_funcs.go: PathParams, BuildParamMap, RemoveBraces")],
 "runtime monitoring: inverse-function oracle over generated templates and paths",
 "Values are drawn from a small set of hostile strings without '/'.")

exec(open(os.path.join(V, "tools", "more.py")).read())
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
        technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=NA,
    notes="No hooks: the checks observe baron through its command line, its exported packages and the code it generates. known_findings.txt lists what is broken and what was repaired.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
