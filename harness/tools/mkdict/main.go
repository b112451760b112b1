// mkdict TREE: writes the literals of a tree in the form of lib/dict_base.json.
package main

import (
	"encoding/json"
	"os"

	"github.com/indigo-web/indigo/verif/lib"
)

func main() {
	data, _ := json.MarshalIndent(lib.ReadDict(os.Args[1]), "", " ")
	os.Stdout.Write(append(data, '\n'))
}
