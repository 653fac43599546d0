package main

import (
	"io"

	"github.com/tc-hib/winres"
)

// patchTo calls WriteToEXE. The option type is not exported, hence the enumeration.
func patchTo(w io.Writer, r io.ReadSeeker, rs *winres.ResourceSet, o patchOpts) error {
	force := winres.ForceCheckSum()
	auth := winres.WithAuthenticode(winres.ErrorIfSigned)
	switch o.auth {
	case 1:
		auth = winres.WithAuthenticode(winres.RemoveSignature)
	case 2:
		auth = winres.WithAuthenticode(winres.IgnoreSignature)
	}
	switch rs.Count() % 4 { // the same choice, told otherwise
	case 1:
		if o.force {
			return rs.WriteToEXE(w, r, force, auth)
		}
		return rs.WriteToEXE(w, r, auth)
	case 2:
		if o.force {
			return rs.WriteToEXE(w, r, force, auth, force, auth)
		}
		return rs.WriteToEXE(w, r, auth, auth)
	}
	switch {
	case o.force && o.auth != 0:
		return rs.WriteToEXE(w, r, auth, force)
	case o.force:
		return rs.WriteToEXE(w, r, force)
	case o.auth != 0:
		return rs.WriteToEXE(w, r, auth)
	}
	return rs.WriteToEXE(w, r)
}
