package h

import (
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"vh/ref"
	"vh/sym"
)

// verdict judges the outcome of one parse against the expected one.
// Parameter "errs": 1 = also that malformed input is an error; 0 = only that
// well-formed input is shown. Parameter "judge" 0: only that the code runs to its
// end.
func verdict(mask ref.Kind, want *ref.Node, ok bool, got *result.Item, err error) {
	observe(got, err)
	if sym.Param("judge", 1) == 0 {
		sym.Reach("end")
		return
	}
	if !ok {
		sym.Reach("malformed")
		if sym.Param("errs", 0) == 1 {
			sym.Assert(err != nil, "malformed input accepted")
		}
		return
	}
	sym.Reach("well-formed")
	sym.Assert(err == nil, "well-formed input rejected")
	if mask != 0 {
		compare(mask, want, got)
	}
}
