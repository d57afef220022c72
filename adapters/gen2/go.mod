module verif/adapters/gen2

go 1.23

require (
	github.com/loopholelabs/polyglot/v2 v2.0.0
	google.golang.org/protobuf v1.36.9
)

replace github.com/loopholelabs/polyglot/v2 => /repo/v2
