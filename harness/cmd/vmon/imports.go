package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// Programs distributed over files. The import of a file stands for its text.

// topLevel cuts a source text at line breaks outside of all brackets, in front of a top level statement
func topLevel(src string) (pieces []string) {
	depth, start := 0, 0
	comment := false
	for i := 0; i < len(src); i++ {
		switch b := src[i]; {
		case b == '\n':
			comment = false
			if depth != 0 {
				continue
			}
			rest := strings.TrimLeft(src[i+1:], " \t\r\n")
			for _, k := range []string{"func", "var", "public", "#", "import"} {
				if strings.HasPrefix(rest, k) {
					pieces = append(pieces, src[start:i+1])
					start = i + 1
					break
				}
			}
		case comment:
		case b == '#':
			comment = true
		case strings.IndexByte("({[", b) >= 0:
			depth++
		case strings.IndexByte(")}]", b) >= 0:
			depth--
		}
	}
	return append(pieces, src[start:])
}

type scattered struct {
	dir   string
	files map[string]string // path -> content
	n     int
}

func newScattered() *scattered {
	dir, err := os.MkdirTemp("", "vmonimport")
	if err != nil {
		panic(err)
	}
	return &scattered{dir: dir, files: map[string]string{}}
}

func (s *scattered) remove() { os.RemoveAll(s.dir) }

func (s *scattered) write(name, content string) string {
	path := filepath.Join(s.dir, name)
	if err := os.WriteFile(path, []byte(content), 0600); err != nil {
		panic(err)
	}
	s.files[path] = content
	return path
}

// scatter moves a run of top level statements of src into a file, and possibly some of these into another one
func (s *scattered) scatter(r *rand.Rand, src string, depth int) string {
	pieces := topLevel(src)
	i := r.Intn(len(pieces))
	j := i + 1 + r.Intn(len(pieces)-i)
	inner := strings.Join(pieces[i:j], "")
	if depth > 0 && chance(r, 1, 3) {
		inner = s.scatter(r, inner, depth-1)
	}
	if chance(r, 1, 4) {
		inner = strings.TrimRight(inner, "\n")
	}
	s.n++
	path := s.write(fmt.Sprintf(pick(r, "lib%d", "lib %d.txt", "p%d.snark", "%d", "a-b_%d!"), s.n), inner)
	line := pick(r, "", "\n", " ", "# library\n") + "import" + pick(r, " ", "", "\t") + "\"" + path + "\"" + pick(r, "\n", "\n\n", " # imported\n")
	rest := strings.Join(pieces[j:], "")
	if depth > 0 && j < len(pieces) && chance(r, 1, 3) {
		rest = s.scatter(r, rest, depth-1)
	}
	return strings.Join(pieces[:i], "") + line + rest
}

// importCase compares a program in one piece with the same program distributed over files, before and after the files
// had another content
func importCase(c *Ctx, src, d0 string) bool {
	s := newScattered()
	defer s.remove()
	split := s.scatter(c.R, src, 2)
	check := func(when string) bool {
		d, comp, hang := describeTimed(split)
		if hang || d != d0 {
			what := "does not end"
			if !hang {
				what = fmt.Sprintf("gives %s instead of %s", d, d0)
				if comp == nil {
					_, err := compile(split)
					what += fmt.Sprint(": ", err)
				}
			}
			c.Note("%s\n---- files\n%q\n---- in one piece\n%s", split, s.files, src)
			c.Fail("import", "compiling the program distributed over %d files %s %s", len(s.files), when, what)
			return false
		}
		c.Count("distributed programs compared", 1)
		return true
	}
	if !check("") {
		return false
	}
	// files get another content for a while
	changed := src
	others := map[string]string{}
	for path, content := range s.files {
		if !chance(c.R, 2, 3) {
			continue
		}
		other := edited(c.R, content)
		others[path] = other
		// the text of a file that has no import stands in the program as it is
		if k := strings.TrimRight(content, "\n"); len(k) > 0 && strings.Count(changed, k) == 1 {
			changed = strings.Replace(changed, k, strings.TrimRight(other, "\n"), 1)
		} else {
			changed = ""
		}
	}
	if changed == "" || !ends(c.R, changed) {
		// a program whose recursions may have lost their end is not executed
		return true
	}
	for path, other := range others {
		os.WriteFile(path, []byte(other), 0600)
	}
	if changed != src {
		d1, _, h1 := describeTimed(changed)
		d, _, h := describeTimed(split)
		if h1 != h || d1 != d {
			c.Note("%s\n---- files before the change\n%q\n---- in one piece after the change\n%s", split, s.files, changed)
			c.Fail("import edited", "compiling the program after a change of its files gives %s instead of %s", d, d1)
			return false
		}
		c.Count("distributed programs compared after a change", 1)
	} else {
		describeTimed(split)
	}
	for path, content := range s.files {
		os.WriteFile(path, []byte(content), 0600)
	}
	return check("after the files were changed and restored")
}

// edited changes a text
func edited(r *rand.Rand, s string) string {
	if chance(r, 1, 2) {
		// another factor somewhere, which no loop depends on
		for k := 0; k < 20; k++ {
			i := r.Intn(len(s) + 1)
			if i < len(s) && i > 0 && s[i] >= '3' && s[i] <= '9' && s[i-1] == '*' {
				return s[:i] + string(rune('2'+r.Intn(8))) + s[i+1:]
			}
		}
	}
	return strings.Replace(s, "*", "+", 1+r.Intn(4))
}

// circularImport is a program that imports itself, directly or not
func circularImport(r *rand.Rand, s *scattered, src string) string {
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		next := fmt.Sprintf("import \"%s/c%d\"\n", s.dir, (i+1)%n)
		body := ""
		if chance(r, 1, 2) {
			body = fmt.Sprintf("func mal%d(a){\nreturn a\n}\n", i)
		}
		if chance(r, 1, 2) {
			next, body = body, next
		}
		s.write(fmt.Sprintf("c%d", i), body+next)
	}
	return fmt.Sprintf("import \"%s/c0\"\n", s.dir) + src
}
