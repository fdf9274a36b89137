RT = "go-kit, mux and nats.go are replaced by packages of the same API and semantics; gRPC and protobuf are real. Generated services and values; not exhaustive."
GENHTTP = ["gengokit/httptransport/httptransport.go", "gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "svcdef/consolidate_http.go"]

prop("C07", "The HTTP server decodes every request as annotated",
 "For every HTTP binding, a request spelled as the annotation declares - verb, path, path parameters, query parameters, JSON body - reaches the handler of its rpc once, with exactly the message it spells. The response is the JSON of the handler's message with protobuf field names. A request which does not decode is answered with an error status and a JSON error, never runs the handler, and never crashes the server.",
 ["inputs", "programs"], "all services baron accepts, all requests",
 "The repository compiles and runs no generated server; its tests compare snippets of decoder code with expected text.",
 GENHTTP, [("decoders", "NAME.pb.baron.go.tmpl: DecodeHTTP*Request"), ("decoder code", "gengokit/httptransport/httptransport.go: GenQueryUnmarshaler, createDecodeConvertFunc"), ("error answers", "gengokit/httptransport: errorEncoder")],
 "runtime monitoring: generated servers run on spelled requests; a recording handler is the observation point, the message's descriptor and annotation the oracle", RT,
 observe=["the message given to the handler", "the HTTP response"])

prop("C08", "The HTTP client and server agree",
 "For every rpc with an HTTP binding, a request given to the generated HTTP client arrives at the generated server's handler as the same message, by a request whose verb and path are those of a declared binding; the response and any error come back to the caller unchanged.",
 ["inputs", "programs"], "all services, all messages within the documented limits of query parameters",
 "Client and server are generated by different code; no test runs one against the other.",
 GENHTTP, [("encoder code", "gengokit/httptransport/httptransport.go: GenClientEncode; NAME.pb.baron.go.tmpl: EncodeHTTP*Request"), ("decoder code", "gengokit/httptransport/httptransport.go: GenQueryUnmarshaler")],
 "runtime monitoring: round-trip oracle over loopback between generated clients and servers", RT + " Five known findings are listed in known_findings.txt.",
 observe=["the message given to the handler", "the request on the wire", "the response of the client"])

prop("C09", "Requests are routed as declared",
 "A request reaches the handler of an rpc only if one of its bindings declares the request's verb and a path template which fits, and reaches one whenever some binding does. A path which no binding has is answered 404, and one whose bindings have other verbs 405; no handler runs.",
 ["inputs", "programs"], "all services, all verbs and paths",
 "No test runs the generated router.",
 GENHTTP, [("router", "NAME.pb.baron.go.tmpl: MakeHTTPHandler")],
 "runtime monitoring: generated routers probed with declared and near-miss verbs and paths, judged by the annotations", RT,
 observe=["which handler runs", "the HTTP status"])

prop("C10", "gRPC and NATS transports carry messages unchanged",
 "For every rpc, a message sent by the generated gRPC client, by any gRPC client which calls the method by its protobuf name, or by the generated NATS client arrives at the handler of that rpc unchanged, once, and its response returns unchanged. One NATS message is handled by one member of the service's queue group.",
 ["inputs", "programs"], "all services and transports, all messages the encoding of the transport can carry",
 "No test runs a generated gRPC or NATS service.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl"], [("gRPC binding", "NAME.pb.baron.go.tmpl: MakeGRPCServer, NewGRPCClient"), ("NATS binding", "NAME.pb.baron.go.tmpl: NATS server and client")],
 "runtime monitoring: round-trip and exactly-once oracles over generated gRPC and NATS clients and servers", RT,
 observe=["the message given to the handler", "the response of the client"])

prop("C11", "Middlewares wrap exactly the endpoints they should",
 "WrapAllExcept and WrapAllLabeledExcept wrap every endpoint except the excluded ones, each once, outside what was wrapped before, with the label of its own rpc; a middleware decides alone whether the next one runs, and its result is what the caller gets. Excluding an endpoint which does not exist panics.",
 ["inputs", "programs", "histories"], "all services, all stacks of middlewares and sets of exclusions",
 "No test runs generated endpoints.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl"], [("wrapping", "NAME.pb.baron.go.tmpl: WrapAllExcept, WrapAllLabeledExcept")],
 "runtime monitoring: online trace checker over recorded middleware events of calls by all transports", RT,
 observe=["the trace of middlewares and handlers of each call"])

prop("C21", "Errors and metadata cross the transports",
 "A handler's error reaches the caller: over HTTP with the status, headers and JSON it chooses (500 and its text by default), over gRPC with its status. The HTTP and gRPC clients send the context values they are configured with, and the handler finds the request's headers and metadata, and how it was called, in its context; nothing else leaks from one call to another.",
 ["inputs", "programs", "histories"], "all services, all errors and metadata",
 "No test runs a generated service.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl"], [("error encoder", "NAME.pb.baron.go.tmpl: errorEncoder, errorDecoder"), ("metadata", "NAME.pb.baron.go.tmpl: headersToContext, metadataToContext, contextValuesToHttpHeaders")],
 "runtime monitoring: oracle over errors and contexts observed at handlers and callers of generated services", RT + " One known finding (NATS) is listed.",
 observe=["the context of the handler", "the error and response of the caller"])

prop("C22", "Concurrent calls do not interfere",
 "Calls made at the same time through any of the generated clients, transports and endpoints each get the answer to their own request, and each is handled exactly once with its own message and metadata. The generated code has no data races.",
 ["schedules", "inputs", "programs"], "all schedules of concurrent calls of all services",
 "No test calls generated code concurrently; a race needs two calls at once.",
 ["gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl", "gengokit/httptransport/httptransport.go"], [("clients, servers and endpoints", "NAME.pb.baron.go.tmpl")],
 "runtime monitoring: race detector and conservation oracle (every call handled once, every caller gets its own answer) under concurrent load", RT + " The race detector judges the schedules that occurred.",
 observe=["race reports", "the answers and the handled calls"])

FS = ["cmd/baron/main.go", "gengokit/generator/gen.go", "internal/execprotoc/execprotoc.go", "internal/parsesvcname/parsesvcname.go"]
prop("C12", "Generation is deterministic",
 "The same definition, options and previous files give the same output, byte for byte: from run to run, in another directory, with other environment and other modules around it, whatever the layout and comments of the definition and the file it is split over, whatever stood in the files baron owns, and whatever other runs for other services go on beside it.",
 ["inputs", "histories", "schedules"], "all definitions, options and repetitions",
 "The tests generate once and look at parts of the output; iteration orders vary from run to run.",
 FS + ["svcdef/svcdef.go", "svcdef/consolidate_http.go", "gengokit/httptransport/httptransport.go"],
 [("collection orders", "svcdef/svcdef.go: New; gengokit/generator/gen.go: GenerateGokit")],
 "runtime monitoring: metamorphic oracle (byte equality) over repeated runs of the real tool", "Generated definitions; equal layouts of one definition are compared with each other.")

prop("C13", "Regeneration keeps the user's code and follows the definition",
 "Over any sequence of edits by the user and changes of the definition, regenerating keeps the user's code - bodies and comments of handlers, unexported functions, types, variables, imports, and every file which is kept once it exists - and gives the handlers exactly one method for each rpc of the definition, with its types; code of the user's in other files is not touched. What is generated compiles, also when handlers have bodies.",
 ["histories", "inputs"], "all sequences of edits, definition changes and regenerations",
 "The tests prune and update a few hand-made files in one step; the space of histories and of user code is what matters.",
 ["gengokit/service/services.go", "cmd/baron/main.go", "gengokit/generator/gen.go"],
 [("pruning and updating of handlers", "gengokit/service/services.go: pruneDecls, updateParams, updateResults, isVaildFunc"), ("previous files", "cmd/baron/main.go: readPreviousGeneration")],
 "runtime monitoring: a model of the user's code checked against the files after every step of recorded histories", "Bodies do not depend on the types of their rpc, as code which no longer compiles is the user's to mend. Comments of a removed handler may stay.",
 state=[("handler file", "the user's handlers", "NAME-service/service/service.go")])

prop("C14", "Regenerating without a change changes nothing",
 "When neither the definition nor the options changed, running baron again leaves every file as it is, byte for byte, whatever gofmt-ed code the user has added, and says so.",
 ["histories", "inputs"], "all definitions and user code",
 "The tests compare one regenerated sample with itself.",
 ["gengokit/service/services.go", "gengokit/generator/gen.go", "cmd/baron/main.go"], [("rendering of previous files", "gengokit/service/services.go: Render"), ("formatting", "gengokit/generator/gen.go: formatCode")],
 "runtime monitoring: fixed-point oracle over the file tree of repeated runs", "Generated definitions and code.")

prop("C15", "A run which fails leaves every file whole",
 "Whenever a run of baron fails or is ended, at whatever point and for whatever reason, every file is either as it was or complete, none is lost, the exit status and a message tell (unless the process was killed), and no temporary files stay. A later run without the fault succeeds and gives what it would have given. A definition or a handler file which cannot be read never causes the user's code to be replaced.",
 ["fault_sequences", "crash_points"], "all failures of files, tools and system calls, and ends of the process at all points",
 "No test makes anything fail while files are written.",
 FS + ["gengokit/service/services.go"], [("writing of files", "gengokit/generator/gen.go: WriteGenFile"), ("reading of previous files", "cmd/baron/main.go: readPreviousGeneration"), ("running of tools", "internal/execprotoc/execprotoc.go: protoc")],
 "runtime monitoring: fault injection (strace system call faults and kills, failing tools, signals) with a whole-or-unchanged oracle over file snapshots", "The generated .pb.go files are protoc's to write and are not judged mid-failure. Power failure is not considered.",
 observe=["file tree before and after", "exit status and messages"])

prop("C16", "Baron writes its own files only",
 "A run creates, changes and removes only the files it is documented to generate - beside the definition and within the service directory it was told to use - temporary files, and the stale directories of older versions. Directories and files of the user's of any other name stay, and what is given on the command line and in definitions cannot make it write elsewhere.",
 ["inputs", "histories"], "all definitions, options and contents of the directories",
 "No test looks at what a run does not write.",
 FS, [("paths", "cmd/baron/main.go: parseInput, parseSVCOut, cleanupOldFiles; gengokit/generator/gen.go: templatePathToActual")],
 "runtime monitoring: file-tree snapshots and system-call traces (strace) of the tool, run as a user who may write in its workspace only", "If strace does not work in the sandbox, the snapshots decide alone.",
 observe=["paths of the system calls which change files", "file tree before and after"])

prop("C17", "A started definition is complete and replaces nothing",
 "baron --start NAME DIR writes one new file, NAME.proto in DIR, and prints the command which generates from it; the definition is valid, holds a service of that name with a Status rpc at GET /status, and the printed command generates a service which compiles, for every name and directory. Where anything stands at that place already, it fails with a message and changes nothing.",
 ["inputs", "histories"], "all names, directories and contents of the directory",
 "The one test looks at a name with dashes; words of Go and protobuf, suffixes, directories and obstacles are not tried, and nothing is generated from the scaffold.",
 ["internal/start/start.go", "cmd/baron/main.go"], [("names of file, package and service", "internal/start/start.go: Do"), ("refusal to replace", "internal/start/start.go: Do")],
 "runtime monitoring: protoc descriptors, snapshots and the real tool and compiler judge the scaffolds of generated names", "Names spelling one of the scaffold's own names, or main, and directories which are no import paths are left out.")

prop("C20", "A generated server program serves what it is told to",
 "The generated program serves each transport the service has at the address it is given - a flag before HTTP_ADDR, GRPC_ADDR or NATS_ADDR, those before PORT - and nothing else; with debug mode on, also the profiler. Every call passes the user's options, middlewares, service wrapper and handler once, in that order. The program ends at SIGINT or SIGTERM, or when a transport cannot be served, and says why; without an address it says that there is nothing to serve.",
 ["inputs", "programs", "fault_sequences"], "all services, flags, environments, calls and failing addresses",
 "No test starts a generated program.",
 ["gengokit/template/NAME-service/cmd/NAME/main.go.tmpl", "gengokit/template/NAME-service/server/server.go.tmpl", "gengokit/generator/gen.go"],
 [("addresses", "cmd/NAME/main.go.tmpl"), ("transports", "server/server.go.tmpl: Run, NewEndpoints"), ("ends", "server/interrupt.go.tmpl: Interrupt")],
 "runtime monitoring: trace checker over recorded events of the real program under generated flags, environments, calls, signals and failing addresses", RT + " NATS is a broker of the check.",
 observe=["listening addresses", "trace of each call", "how the program ends and what it says"])

prop("C23", "A generated client program calls every rpc",
 "The client program which -c generates calls each rpc of the service once by each transport which carries it, in the order of the definition, at the addresses it is given, and prints each result. It ends with success if all calls succeeded, and at the first error with that error and a failure.",
 ["inputs", "programs", "fault_sequences"], "all services and failing rpcs",
 "No test generates or runs a client program.",
 ["gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl", "gengokit/generator/gen.go"],
 [("calls", "cmd/NAME-client/main.go.tmpl")],
 "runtime monitoring: trace checker over the calls which the real server saw of the real client program", RT + " Rpcs whose empty request cannot be sent over HTTP (a path parameter is missing) are left out.",
 observe=["events of the server", "output and exit status"])

prop("C24", "The command line does what it says",
 "--help and --version print what they are asked for and write nothing; a command line without a definition, with an unknown option, with definitions which do not exist, lie in different directories or outside the module, or hold more than one service, or with a service directory outside the module fails with a message and generates nothing; where protoc refuses a definition, the message has what protoc says and where; a definition without a service ends well with a warning and its .pb.go file only. --verbose, --debug and --svcdef do not change what is generated, --transport and --client decide which transports and programs are there, and --svcout and the current directory decide where the service goes, not what it is.",
 ["inputs", "programs"], "all command lines with documented options and all definitions",
 "No test runs the tool's command line.",
 ["cmd/baron/main.go", "gengokit/generator/gen.go", "internal/execprotoc/execprotoc.go", "internal/parsesvcname/parsesvcname.go"],
 [("arguments", "cmd/baron/main.go: main, parseInput, cleanProtofilePath, parseSVCOut"), ("choice of templates", "gengokit/generator/gen.go: GenerateGokit")],
 "runtime monitoring: oracle over exit status, output and file-tree differences of the real tool, and byte comparison of its output under varied options", "Values of --transport other than all, grpc and nats are not judged.",
 observe=["exit status and messages", "file tree before and after"])

prop("C25", "A run reports what it does to each file",
 "For every file a run generates, its report has one line with the documented marker: created (->), overridden (*>), left as it was (=>) or modified (>>), which is what happened to that file, and no line speaks of another file. Functions which are removed from the user's handler file, and handlers added to it, are named.",
 ["histories", "inputs"], "all histories of edits of definitions and code, deletions and options",
 "No test reads the report; whether it is true depends on what was there before the run.",
 ["cmd/baron/main.go", "gengokit/generator/gen.go", "gengokit/service/services.go"],
 [("report", "gengokit/generator/gen.go: responseInfo"), ("whether the handler file changes", "gengokit/service/services.go: Render, IsModified"), ("protoc's files", "cmd/baron/main.go: parseInput")],
 "runtime monitoring: oracle over file trees before and after each run of generated histories, compared with the lines the run logs", "The log is read as the text it is where its output is no terminal.",
 observe=["the log of the tool", "file tree before and after"])

NA = []
