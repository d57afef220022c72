module verif/harness

go 1.23

require (
	google.golang.org/protobuf v1.36.9
	pgregory.net/rapid v1.3.0
)
