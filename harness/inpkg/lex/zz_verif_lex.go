package schemalex

import "context"

// VerifLex runs the scanner to its end.
func VerifLex(src []byte) []*Token {
	var out []*Token
	for t := range lex(context.Background(), src) {
		out = append(out, t)
	}
	return out
}
