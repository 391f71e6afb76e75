module verif

go 1.25.0

require (
	github.com/gorilla/mux v1.8.1
	github.com/moov-io/dukpt v0.0.0
)

replace github.com/moov-io/dukpt => /repo
