package main

import "strings"

// lexSQL is the monitor's own tokenizer: it splits a text into tokens without layout and comments. Words are upper-cased,
// quoted texts are kept as they are and synonyms are unified, so that texts can be compared by what they say.
func lexSQL(s string) []string {
	toks := []string{}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v':
			i++
		case strings.HasPrefix(s[i:], "--"):
			n := strings.IndexByte(s[i:], '\n')
			if n < 0 {
				return toks
			}
			i += n + 1
		case strings.HasPrefix(s[i:], "/*"):
			n := strings.Index(s[i+2:], "*/")
			if n < 0 {
				return toks
			}
			i += n + 4
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j < len(s) {
				j++
			}
			t := s[i:j]
			if c != '\'' && isWord(bare(t)) {
				t = strings.ToUpper(bare(t))
			}
			toks = append(toks, t)
			i = j
		case c == '[':
			j := strings.IndexByte(s[i:], ']')
			if j < 0 {
				return append(toks, s[i:])
			}
			t := s[i : i+j+1]
			if isWord(bare(t)) {
				t = strings.ToUpper(bare(t))
			}
			toks = append(toks, t)
			i += j + 1
		case isWordByte(c) || c == '.' && i+1 < len(s) && '0' <= s[i+1] && s[i+1] <= '9' && (i == 0 || !isWordByte(s[i-1])):
			j := i
			num := '0' <= c && c <= '9' || c == '.'
			for j < len(s) && (isWordByte(s[j]) || num && (s[j] == '.' || (s[j] == '-' || s[j] == '+') && (s[j-1] == 'e' || s[j-1] == 'E') && !strings.HasPrefix(s[i:], "0x"))) {
				j++
			}
			toks = append(toks, strings.ToUpper(s[i:j]))
			i = j
		default:
			t := string(c)
			for _, op := range []string{"<>", "!=", "<=", ">=", "==", "||", "<<", ">>"} {
				if strings.HasPrefix(s[i:], op) {
					t = op
				}
			}
			i += len(t)
			if t == "==" {
				t = "="
			}
			if t == "<>" {
				t = "!="
			}
			toks = append(toks, t)
		}
	}
	return toks
}

func isWordByte(c byte) bool {
	return c == '_' || c == '?' || c == '$' || c == '@' || c == ':' || 0x80 <= c || ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
}

func isWord(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isWordByte(s[i]) {
			return false
		}
	}
	return 0 < len(s)
}

// containsSeq returns whether the tokens of b appear contiguously in a.
func containsSeq(a, b []string) bool {
	if len(b) == 0 {
		return true
	}
	for i := 0; i+len(b) <= len(a); i++ {
		ok := true
		for j := range b {
			if a[i+j] != b[j] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// missingTokens returns the tokens of want that got does not have often enough.
func missingTokens(want, got []string, ignore map[string]bool) []string {
	n := map[string]int{}
	for _, t := range got {
		n[t]++
	}
	missing := []string{}
	for _, t := range want {
		if ignore[t] {
			continue
		}
		if n[t] == 0 {
			missing = append(missing, t)
			continue
		}
		n[t]--
	}
	return missing
}
