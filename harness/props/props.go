// Package props holds the property harnesses. A harness is an exported
// function named <property>_<name>; its inputs come from package sym.
package props

import (
	_ "github.com/signintech/pdft"
	_ "symh/models"
)
