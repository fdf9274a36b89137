package main

import "time"

const stubs = "go-kit, gorilla/mux and nats.go, which are not in the sandbox, are stood in for by packages of the same API and semantics (/verif/rt/stubs); gRPC and protobuf are the real ones"

func init() {
	checks["C07"] = checkDef{run: func(h *H) { h.runFleet("C07", h.N(72, 480), h.N(40, 300)) },
		rule:    "a request spelled from the annotation and sent to the generated handler; what the handler is given is compared with what was spelled. Non-trivial: every distinct request",
		assumes: []string{stubs}}
	checks["C08"] = checkDef{run: func(h *H) { h.runFleet("C08", h.N(72, 480), h.N(40, 300), probeFile) },
		rule:    "a message given to the generated HTTP client and served over loopback by the generated server; the handler's and the caller's messages are compared. Non-trivial: every distinct message",
		assumes: []string{stubs}}
	checks["C09"] = checkDef{run: func(h *H) { h.runFleet("C09", h.N(72, 480), h.N(30, 200)) },
		rule:    "a verb and path, declared or near a declared one, sent to the generated handler; whether and which rpc it reaches is compared with the annotations. Non-trivial: every distinct verb and path",
		assumes: []string{stubs}}
	checks["C10"] = checkDef{run: func(h *H) { h.runFleet("C10", h.N(72, 480), h.N(40, 300)) },
		rule:    "a message sent by a generated gRPC or NATS client, or by the name the protobuf definition gives the method, to the generated server; what handler and caller get is compared. Non-trivial: every distinct message",
		assumes: []string{stubs}}
	checks["C11"] = checkDef{run: func(h *H) { h.runFleet("C11", h.N(72, 480), h.N(12, 80)) },
		rule:    "a call through endpoints wrapped in layers of recording middlewares, with the trace compared to the one the exclusions give. Non-trivial: every distinct transport, rpc and expected trace",
		assumes: []string{stubs}}
	checks["C21"] = checkDef{run: func(h *H) { h.runFleet("C21", h.N(72, 480), h.N(12, 80)) },
		rule:    "a call which fails in the handler, or which carries metadata; what the caller and the handler see is compared. Non-trivial: every distinct rpc and error",
		assumes: []string{stubs}}
	checks["C22"] = checkDef{run: runC22,
		rule:    "a call made while others are made of the same service by all its clients, in a program built with the race detector; each caller compares its answer with the one only it can get. Non-trivial: every distinct call",
		assumes: []string{stubs, "the race detector sees the schedules that occur"}}
}

func runC22(h *H) {
	fl := h.newFleet(h.N(12, 40), runOpts, allTransports, true)
	defer fl.Close()
	for i := 0; i < h.N(3, 20); i++ {
		procs := []string{"8", "2", "16", "4", "1"}[i%5]
		fl.Run("C22", h.Seed*100+int64(i), h.N(15, 60), "", 10*time.Minute, "GOMAXPROCS="+procs, "GORACE=halt_on_error=1")
		h.Count("runs under the race detector", 1)
	}
}

func allTransports(i int) string { return "all" }
func mixTransports(i int) string { return transports[i%3] }

func (h *H) runFleet(check string, services, n int, extra ...*File) {
	o := runOpts
	// which of two bindings which fit takes a request only matters to routing
	o.Overlap = check == "C09"
	fl := h.newFleet(services, o, mixTransports, false, extra...)
	defer fl.Close()
	fl.Run(check, h.Seed, n, "", 10*time.Minute)
}

// probeFile is the service on which the known findings of C08 are tried.
var probeFile = &File{Path: "probek/probek.proto", Pkg: "probek", GoPkg: "scratch/probek", Imps: []string{"google/api/annotations.proto"},
	Msgs: []*Msg{{Name: "ProbeRequest", Fields: []*Field{
		{Name: "s", Num: 1, Type: "string", Kind: "string"},
		{Name: "rs", Num: 2, Type: "string", Kind: "string", Label: "repeated"},
		{Name: "rd", Num: 3, Type: "double", Kind: "double", Label: "repeated"},
	}}, {Name: "ProbeReply"}},
	Svc: &Svc{Name: "Probek", Rpcs: []*Rpc{
		{Name: "Query", In: "ProbeRequest", Out: "ProbeReply", HTTP: []Binding{{Verb: "get", Path: "/query"}}},
		{Name: "Path", In: "ProbeRequest", Out: "ProbeReply", HTTP: []Binding{{Verb: "get", Path: "/probe/{s}"}}},
		{Name: "PathX", In: "ProbeRequest", Out: "ProbeReply", HTTP: []Binding{{Verb: "get", Path: "/probe/{s}/x"}}},
		{Name: "Other", In: "ProbeRequest", Out: "ProbeReply", HTTP: []Binding{{Verb: "get", Path: "/x"}}},
	}},
}
