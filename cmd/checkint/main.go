// checkint is the check binary with the properties that reach internal packages.
package main

import (
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	_ "github.com/nyaruka/phonenumbers/v2/verif/intprops"
)

func main() { explore.Main() }
