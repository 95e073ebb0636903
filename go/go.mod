module verif

go 1.21

require (
	github.com/gogo/protobuf v1.3.2
	github.com/gorilla/mux v1.8.1
	github.com/jessevdk/go-flags v1.6.1
	github.com/opentracing/basictracer-go v1.1.0
	github.com/opentracing/opentracing-go v1.2.0
	sourcegraph.com/sourcegraph/appdash v0.0.0
)

require (
	golang.org/x/sys v0.21.0 // indirect
	sourcegraph.com/sourcegraph/appdash-data v0.0.0 // indirect
)
