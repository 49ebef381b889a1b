// Command check explores one property's space.
package main

import (
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	_ "github.com/nyaruka/phonenumbers/v2/verif/props"
)

func main() { explore.Main() }
