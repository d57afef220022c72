module verif/adapters/gov2

go 1.23

require (
	github.com/loopholelabs/polyglot/v2 v2.0.0
	verif/harness v0.0.0
)

replace github.com/loopholelabs/polyglot/v2 => /repo/v2

replace verif/harness => ../../harness
