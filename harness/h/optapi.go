package h

import (
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"vh/sym"
)

var optNames = []string{"", "armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func anyCode(name string) context.OptCode {
	return context.OptCode(int64(sym.Uint64(name)))
}

// wantOpts judges all that can be read from a context.
func wantOpts(c *context.Context, set [10]bool) {
	d := set[3]
	sym.Assert(c.Armor() == set[1], "armor")
	sym.Assert(c.Cert() == (set[2] || d), "cert")
	sym.Assert(c.Debug() == d, "debug")
	sym.Assert(c.GDump() == (set[4] || d), "gdump")
	sym.Assert(c.Integer() == (set[5] || d), "int")
	sym.Assert(c.Literal() == (set[6] || d), "literal")
	sym.Assert(c.Marker() == (set[7] || d), "marker")
	sym.Assert(c.Private() == (set[8] || d), "private")
	sym.Assert(c.UTC() == set[9], "utc")
}

func wantString(c *context.Context, set [10]bool) {
	s := ""
	for i := 1; i < 10; i++ {
		on := set[i] || set[3] && i != 1 && i != 9
		if i > 1 {
			s += ","
		}
		s += optNames[i] + ":"
		if on {
			s += "true"
		} else {
			s += "false"
		}
	}
	got := c.String()
	sym.Observe("string", got)
	sym.Assert(got == s, "options as text")
}

// mixed spells an option's name in one of several ways.
func mixed(name string, k int) string {
	s := []byte(optNames[k])
	up := sym.Choice(name, 3)
	for i := range s {
		if up == 1 && i == 0 || up == 2 {
			s[i] -= 32
		}
	}
	return string(s)
}

// OptAPI: options set by code or name are what is read later.
func OptAPI() {
	switch sym.Param("case", 0) {
	case 0: // any sequence of settings, by code or name, at the start or later
		k := sym.Param("k", 2)
		first := sym.Int("first", 0, k)
		var set [10]bool
		var opts []context.OptFunc
		c := context.New()
		other := context.New(context.Set(context.CERT, true))
		names := []string{"a", "b", "c", "d"}
		for i := 0; i < k; i++ {
			n := names[i]
			on := sym.Bool(n + "on")
			var f context.OptFunc
			if sym.Bool(n + "byname") {
				m := sym.Choice(n+"m", 11)
				switch m {
				case 0:
					f = context.SetByString("", on)
				case 10:
					f = context.SetByString("armo", on)
				default:
					f = context.SetByString(mixed(n+"up", m), on)
					set[m] = on
				}
			} else {
				code := anyCode(n + "code")
				f = context.Set(code, on)
				if i >= first {
					f = func(c *context.Context) { c.Set(code, on) }
				}
				for j := 1; j < 10; j++ {
					if code == context.OptCode(j) {
						set[j] = on
					}
				}
			}
			if i < first {
				opts = append(opts, f)
			} else {
				f(c)
			}
			if i == first-1 {
				c = context.New(opts...)
			}
		}
		wantOpts(c, set)
		wantOpts(other, [10]bool{2: true})
		for j := 1; j < 10; j++ {
			sym.Assert(c.Get(context.OptCode(j)) == set[j], "option read by code")
		}
		sym.Reach("options")
	case 1: // names
		b := sym.ConcreteLen(sym.Bytes("s", sym.Param("n", 8)))
		for i := range b {
			sym.Assume(b[i] < 0x80)
		}
		s := string(b)
		low := lowerASCII(s)
		want := 0
		for i := 1; i < 10; i++ {
			if low == optNames[i] {
				want = i
			}
		}
		got := context.GetOptCode(s)
		sym.Assert(got == context.OptCode(want), "option of a name")
		sym.Reach("name")
	case 2: // codes
		code := anyCode("code")
		want := "unknown"
		for i := 1; i < 10; i++ {
			if code == context.OptCode(i) {
				want = optNames[i]
			}
		}
		sym.Assert(code.String() == want, "name of an option")
		sym.Reach("code")
	case 3: // all together, as text, and with no context
		var set [10]bool
		c := context.New()
		for i := 1; i < 10; i++ {
			set[i] = sym.Bool(optNames[i])
			c.Set(context.OptCode(i), set[i])
		}
		wantOpts(c, set)
		wantString(c, set)
		var none *context.Context
		none.Set(anyCode("code"), true)
		wantOpts(none, [10]bool{})
		sym.Assert(!none.Get(anyCode("code2")), "option of no context")
		sym.Reach("text")
	case 4: // how a message is encrypted
		c := context.New()
		m := context.ModeNotSpecified
		for i := 0; i < sym.Param("k", 3); i++ {
			switch sym.Choice([]string{"a", "b", "c", "d"}[i], 4) {
			case 0:
				c.ResetAlg()
				m = context.ModeNotSpecified
			case 1:
				c.SetAlgSymEnc()
				m = context.ModeSymEnc
			case 2:
				c.SetAlgPubEnc()
				m = context.ModePubEnc
			}
			sym.Assert(c.AlgMode() == m, "mode")
			sym.Assert(c.IsSymEnc() == (m == context.ModeSymEnc), "symmetric")
			sym.Assert(c.IsPubEnc() == (m == context.ModePubEnc), "public key")
		}
		sym.Reach("mode")
	}
}
