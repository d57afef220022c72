// Command gen2 runs the generators of /repo/v2 that have no plugin binary of their own.
package main

import (
	"io"
	"os"

	"google.golang.org/protobuf/types/pluginpb"

	"github.com/loopholelabs/polyglot/v2/generator/rust"
	"github.com/loopholelabs/polyglot/v2/generator/typescript"
)

type generator interface {
	UnmarshalRequest([]byte) (*pluginpb.CodeGeneratorRequest, error)
	MarshalResponse(*pluginpb.CodeGeneratorResponse) ([]byte, error)
	Generate(*pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func main() {
	var g generator = rust.New()
	if len(os.Args) > 1 && os.Args[1] == "ts" {
		g = typescript.New()
	}
	req := must(g.UnmarshalRequest(must(io.ReadAll(os.Stdin))))
	must(os.Stdout.Write(must(g.MarshalResponse(must(g.Generate(req))))))
}
