package main

func ruleFor(p string) string {
	return "One case is one simulated execution: the seed decides registrations, the clients' operations and arguments, the network fate of every request, injected faults and every scheduling decision. A case counts as non-trivial when at least one operation completed and tasks were interleaved beyond running one after the other, or a fault fired; distinct ones have different hashes of schedule and history."
}

func realFor(p string) []string {
	switch p {
	case "C14", "C15":
		return []string{"pkg", "pkg/des", "pkg/aes", "encryption"}
	case "C16", "C20", "C21":
		return []string{"cmd/server main", "pkg/server", "pkg", "pkg/des", "pkg/aes", "encryption"}
	case "C17":
		return []string{"cmd/dukptcli main", "pkg/server wrappers", "pkg", "pkg/des", "pkg/aes", "encryption"}
	case "C23":
		return []string{"cmd/server main", "cmd/dukptcli main", "pkg/server service, in-memory registry and handler", "pkg", "pkg/des", "pkg/aes", "encryption"}
	case "C19":
		return []string{"cmd/dukptcli main", "pkg/server service and handler", "pkg", "pkg/des", "pkg/aes", "encryption"}
	}
	return []string{"pkg/server service, in-memory registry, HTTP handler (routing, decoding, encoding; gorilla/mux and go-kit as vendored)", "pkg", "pkg/des", "pkg/aes", "encryption", "net/http request parser"}
}

func stubFor(p string) []string {
	switch p {
	case "C14":
		return []string{"network (loss, duplication, reordering, delay, corruption)", "terminal (reference model with key registers)", "durable storage of terminal and host", "clock", "goroutine scheduling"}
	case "C15":
		return []string{"goroutine scheduling", "randomness"}
	case "C23":
		return []string{"clients and network (simnet; loss, delay, corruption, stalls)", "net/http.Server and moov admin server (simnet)", "process boundary of the tool", "store faults", "randomness source", "clock", "goroutine scheduling"}
	case "C16", "C20", "C21":
		return []string{"net/http.Server, listener and connections (simnet)", "moov admin server (simnet)", "signals", "clock", "process exit", "environment"}
	case "C19":
		return []string{"network between clients, service and operators (loss, duplication, delay, reordering)", "process boundary of the tool (exit, arguments, flag defaults; failing outputs are real files)", "goroutine scheduling", "clock", "randomness source"}
	case "C17":
		return []string{"process boundary of the tool (exit, arguments, flag defaults)", "randomness source", "standard output (real files that fail: closed, read-only, full device, broken pipe, size limit)"}
	case "C18":
		return []string{"goroutine scheduling (hand-over invisible to the race detector)", "sync.Pool (never reuses)"}
	}
	return []string{"TCP connections (loss, delay, duplication, truncation, corruption, stalls)", "net/http connection loop", "goroutine scheduling", "sync primitives of /repo", "clock and timers", "randomness source", "store faults (wrapper around the real in-memory registry)"}
}
