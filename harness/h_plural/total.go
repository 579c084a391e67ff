package h_plural

import "github.com/vorlif/spreak/internal/zzverif/nd"

// Bytes: any bytes in place of the header, after its beginning, or in place of the expression.
func Bytes() {
	s := nd.String("s", nd.Param("n"))
	switch nd.Param("at") {
	case 1:
		s = "nplurals=2;" + s
	case 2:
		s = "nplurals=2; plural=" + s
	case 3:
		s = "nplurals=2; plural=" + s + ";"
	case 4:
		s = "nplurals=2; plural=n==1" + s
	}
	agree(s)
}

var heads = []string{
	"nplurals=2; plural=n != 1;",
	"nplurals=3; plural=(n==1) ? 0 : n>=2 && n<=4 ? 1 : 2;",
	"nplurals=2; plural=n%10==1 || n%100!=11;\n",
	"nplurals=1; plural=0;",
}

// Edit: a header with any one byte replaced, inserted or left out.
func Edit() {
	h := heads[nd.Param("h")]
	i := nd.Choice("i", len(h)+1)
	b := nd.String("b", 1)
	switch nd.Choice("how", 4) {
	case 0:
		agree(h[:i] + b + h[i:])
	case 1:
		nd.Assume(i < len(h))
		agree(h[:i] + b + h[i+1:])
	case 2:
		nd.Assume(i < len(h))
		agree(h[:i] + h[i+1:])
	case 3:
		agree(h[:i])
	}
}

var words = []string{"n", "N", "nn", "0", "1", "12", "9223372036854775807", "9223372036854775808", "1_0", "%", "=", "==", "!=", "!", "<", "<=", ">=", "&", "&&", "|", "||", "?", ":", "(", ")", ";", "+", "-", "plural", " "}

// Words: any sequence of words.
func Words() {
	s := ""
	for i := 0; i < nd.Param("k"); i++ {
		s += words[nd.Choice("w", len(words))]
	}
	agree("nplurals=2; plural=" + s + ";")
}
