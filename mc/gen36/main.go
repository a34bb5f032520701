// gen36 evaluates generated plural rules: it is built by check C36 with the generated files in place of
// the committed ones.
package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<24)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	line := func() string {
		in.Scan()
		return in.Text()
	}
	counts := strings.Split(line(), " ")
	numbers := strings.Split(line(), " ")
	for {
		kind, rest, ok := strings.Cut(line(), " ")
		if !ok {
			return
		}
		switch kind {
		case "po": // language
			f, found := poplural.ForLanguage(language.MustParse(rest))
			fmt.Fprint(out, found)
			for _, n := range counts {
				v, err := f(n)
				fmt.Fprint(out, " ", v)
				if err != nil {
					fmt.Fprint(out, "!")
				}
			}
		case "raw": // header
			r, err := poplural.Parse(rest)
			if err != nil {
				fmt.Fprint(out, err)
				break
			}
			fmt.Fprint(out, r.NPlurals)
			for _, n := range counts {
				v, err := r.Evaluate(n)
				fmt.Fprint(out, " ", v)
				if err != nil {
					fmt.Fprint(out, "!")
				}
			}
		case "cldr": // language
			set, found := cldrplural.ForLanguage(language.MustParse(rest))
			fmt.Fprint(out, found, " ", fmt.Sprint(len(set.Categories)))
			for _, c := range set.Categories {
				fmt.Fprint(out, " ", c)
			}
			for _, n := range numbers {
				v, err := set.Evaluate(n)
				fmt.Fprint(out, " ", v)
				if err != nil {
					fmt.Fprint(out, "!")
				}
			}
		}
		fmt.Fprintln(out)
	}
}
