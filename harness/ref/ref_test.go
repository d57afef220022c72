package ref

import (
	"encoding/base64"
	"encoding/json"
	"os"
	"testing"

	"verif/harness/wire"
)

// The reference model must agree with the cross-language samples that ship with the repository.
func TestAgainstIntegrationData(t *testing.T) {
	raw, err := os.ReadFile("/repo/integration-test-data.json")
	if err != nil {
		t.Skip(err)
	}
	var cases []struct {
		Name         string
		EncodedValue string `json:"encodedValue"`
	}
	if err := json.Unmarshal(raw, &cases); err != nil {
		t.Fatal(err)
	}
	for _, c := range cases {
		b, err := base64.StdEncoding.DecodeString(c.EncodedValue)
		if err != nil {
			t.Fatal(err)
		}
		p := 0
		var vs []wire.Value
		for p < len(b) {
			rd, ok := Next(b, p)
			if !ok {
				t.Fatalf("%s: no item at %d of %x", c.Name, p, b)
			}
			r := Decode(b, p, rd)
			if r.Class != Good {
				t.Fatalf("%s: %v at %d of %x", c.Name, r, p, b)
			}
			vs = append(vs, wire.Value{Kind: rd.Kind, KK: rd.KK, VK: rd.VK, Num: r.Num, Data: r.Data})
			p = r.Next
		}
		if string(Encode(vs)) != string(b) {
			t.Fatalf("%s: %x re-encoded as %x", c.Name, b, Encode(vs))
		}
	}
}
