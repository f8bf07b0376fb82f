// Command dump prints what the device database it was built with says.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/stampzilla/gozwave/database"
)

func main() {
	var q [][3]string
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var r struct {
		Devices   []*database.Device
		Mandatory map[string][]*database.CommandClass
	}
	for _, x := range q {
		r.Devices = append(r.Devices, database.New(x[0], x[1], x[2]))
	}
	r.Mandatory = map[string][]*database.CommandClass{}
	for g := 0; g < 256; g++ {
		for s := 0; s < 256; s++ {
			if l := database.GetMandatoryCommandClasses(byte(g), byte(s)); len(l) > 0 {
				r.Mandatory[fmt.Sprintf("%02x%02x", g, s)] = l
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(r)
}
