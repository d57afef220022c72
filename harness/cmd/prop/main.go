// Command prop runs one part of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verif/harness/prop"
)

func main() {
	list := flag.Bool("list", false, "list parts as JSON")
	name := flag.String("part", "", "part to run")
	seed := flag.Uint64("seed", 1, "seed")
	batch := flag.Uint64("batch", 1, "seed of the schemas whose generated code is built")
	checks := flag.Int("checks", 0, "cases")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "report file")
	dir := flag.String("dir", ".", "directory for replay files")
	corpus := flag.String("corpus", "", "directory of regression cases")
	replay := flag.String("replay", "", "case file to run")
	adapters := flag.String("adapters", "", "JSON map of adapter commands")
	flag.Parse()
	if *list {
		type row struct {
			Prop, Name                      string
			Needs                           []string
			Quick, Thorough, Shards, Weight int
		}
		var rows []row
		for _, p := range prop.Parts {
			rows = append(rows, row{p.Prop, p.Name, p.Needs, p.Quick, p.Thorough, p.Shards, p.Weight})
		}
		json.NewEncoder(os.Stdout).Encode(rows)
		return
	}
	p := prop.Find(*name)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such part:", *name)
		os.Exit(2)
	}
	n := *checks
	if n == 0 {
		n = p.Quick
		if *tier == "thorough" {
			n = p.Thorough
		}
	}
	if *seed == 0 {
		*seed = 1
	}
	prop.Tier = *tier
	env := prop.NewEnv(*adapters)
	rep := p.Run(prop.Options{Env: env, Seed: *seed, Checks: n, Replay: *replay, Corpus: *corpus, OutDir: *dir, Batch: *batch})
	env.Close()
	b, _ := json.Marshal(rep)
	if *out == "" {
		b, _ = json.MarshalIndent(rep, "", " ")
		fmt.Println(string(b))
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch {
	case rep.Infra != "":
		os.Exit(2)
	case rep.Violation != "":
		os.Exit(1)
	}
}
