package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

// together runs the functions in goroutines that begin at the same time.
func together(fs []func()) {
	var begin, done sync.WaitGroup
	begin.Add(1)
	pans := make([]any, len(fs))
	for i, f := range fs {
		done.Add(1)
		go func(i int, f func()) {
			defer done.Done()
			defer func() { pans[i] = recover() }()
			begin.Wait()
			f()
		}(i, f)
	}
	begin.Done()
	done.Wait()
	for _, p := range pans {
		if p != nil {
			panic(p)
		}
	}
}

// worldsCase lets goroutines build and use routers of their own, made of the
// same texts, implementations, handlers and lists of middlewares.
func worldsCase(c *Case) {
	p := newInterPool(c)
	n := 3 + c.IntN(4)
	var steps [][]interStep
	var yields [][]int
	var alone []*interWorld
	var said [][]string
	for i := 0; i < n; i++ {
		ss := interSteps(c, p, string(rune('A'+i)), 4+c.IntN(16))
		if i > 0 && c.P(0.3) {
			ss = steps[c.IntN(i)] // The same steps at the same time.
		}
		var ys []int
		for range ss {
			ys = append(ys, c.IntN(4))
		}
		steps, yields = append(steps, ss), append(yields, ys)
	}
	build := func(i int, yield bool) (*interWorld, []string) {
		w := newInterWorld(c, p)
		for k, s := range steps[i] {
			w.step(s)
			for y := yields[i][k]; yield && y > 1; y-- {
				runtime.Gosched()
			}
		}
		return w, w.all()
	}
	// Whatever the first use of something prepares is prepared by one of them
	// in half of the cases only.
	before := c.P(0.5)
	first := func() {
		for i := 0; i < n; i++ {
			w, s := build(i, false)
			alone, said = append(alone, w), append(said, s)
		}
	}
	if before {
		first()
	}
	worlds, says := make([]*interWorld, n), make([][]string, n)
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() { worlds[i], says[i] = build(i, true) })
	}
	together(fs)
	if !before {
		first()
	}
	// Those that have been built keep answering while others are being built.
	again := make([][]string, n)
	for i := range fs {
		if i%2 == 0 {
			fs[i] = func() { again[i] = worlds[i].census() }
		} else {
			fs[i] = func() { _, again[i] = build(i, true) }
		}
	}
	together(fs)
	for i := 0; i < n; i++ {
		diff := func(is, want []string, what string) {
			for k := range want {
				if k >= len(is) || is[k] != want[k] {
					c.Logf("the steps: %s", strings.Join(alone[i].out, "\n"))
					c.Fail("%s:\n%s\nalone:\n%s", what, append(is, "nothing")[k], want[k])
				}
			}
			c.Eval("")
		}
		diff(says[i], said[i], "built while other routers were")
		if i%2 == 0 {
			diff(again[i], said[i][len(alone[i].out):], "used while other routers were built")
		} else {
			diff(again[i], said[i], "built while other routers were used")
		}
		c.EvalHash(hash64(strings.Join(said[i], "\n")))
		c.CountN("steps", len(steps[i]))
	}
	c.Count(fmt.Sprint(n, " routers at the same time"))
}

// templatesCase lets goroutines use the same templates.
func templatesCase(c *Case) {
	var ts []*nm.Template
	var texts []string
	n := 2 + c.IntN(4)
	for k := 0; len(ts) < n && k < 50; k++ {
		text := someTmpl(c)
		t, err := nm.TryToParse(text)
		if err != nil {
			continue
		}
		ts, texts = append(ts, t), append(texts, text)
	}
	if len(ts) == 0 {
		return
	}
	type op struct {
		name string
		do   func(ts []*nm.Template) string
	}
	var ops []op
	add := func(name string, f func(ts []*nm.Template) string) { ops = append(ops, op{name, f}) }
	for k := 6 + c.IntN(10); k > 0; k-- {
		i, j := c.IntN(len(ts)), c.IntN(len(ts))
		vals := nm.HostPathValues{}
		for _, v := range ts[i].ValueNames() {
			vals.Set(v, pick(c.Rand, []string{"1", "12", "a", "abc", "", "x y", "ü"}))
		}
		str := pick(c.Rand, []string{"", "a", "1", "ab-12", "abc", "a/b"})
		if s, err := ts[i].TryToApply(vals, true); err == nil && c.P(0.8) {
			str = s
		}
		ignore := c.P(0.5)
		switch c.IntN(6) {
		case 0, 1:
			add("match", func(ts []*nm.Template) string {
				ok, got := ts[i].Match(str, nil)
				return fmt.Sprint(ok, got)
			})
		case 2:
			add("apply", func(ts []*nm.Template) string {
				s, err := ts[i].TryToApply(vals, ignore)
				return fmt.Sprint(s, err)
			})
		case 3:
			add("similarity", func(ts []*nm.Template) string {
				return fmt.Sprint(ts[i].SimilarityWith(ts[j]))
			})
		case 4:
			add("print", func(ts []*nm.Template) string {
				t := ts[i]
				return fmt.Sprint(t.String(), t.Name(), t.Content(), t.UnescapedContent(), t.ValueNames(),
					t.HasValueName("x"), t.HasPattern(), t.IsStatic(), t.IsWildcard())
			})
		case 5:
			text := texts[j]
			add("parse", func(ts []*nm.Template) string {
				t, err := nm.TryToParse(text)
				if err != nil {
					return err.Error()
				}
				ok, got := t.Match(str, nil)
				return fmt.Sprint(t, ok, got, t.SimilarityWith(ts[i]), ts[i].SimilarityWith(t))
			})
		}
	}
	all := func(ts []*nm.Template, from int) []string {
		out := make([]string, len(ops))
		for k := range ops {
			k := (from + k) % len(ops)
			out[k] = ops[k].do(ts)
		}
		return out
	}
	// The expectations come from templates of the same texts.
	var twins []*nm.Template
	for _, text := range texts {
		t, _ := nm.TryToParse(text)
		twins = append(twins, t)
	}
	want := all(twins, 0)
	const m = 6
	got := make([][]string, m)
	var fs []func()
	for g := 0; g < m; g++ {
		from := c.IntN(len(ops))
		fs = append(fs, func() {
			for k := 0; k < 3; k++ {
				got[g] = all(ts, from)
			}
		})
	}
	together(fs)
	for g := range got {
		for k := range want {
			if got[g][k] != want[k] {
				c.Logf("templates: %q", texts)
				c.Fail("%s: %s, while the templates were used by others; alone: %s", ops[k].name, got[g][k], want[k])
			}
			c.Count("operation: " + ops[k].name)
		}
	}
	c.EvalHash(hash64(strings.Join(texts, "\n"), strings.Join(want, "\n")))
}

// someTmpl returns the text of a template, which is likely valid.
func someTmpl(c *Case) string {
	parts := []string{"a", "ab-", "{x}", `{x:\d+}`, `{y:[a-c]+}`, "-", "{z}", "%20", "ü", `{v:(?i)ab|cd}`,
		`{w:[0-9]{1,3}}`, "$n:", "/"}
	s := ""
	for k := 1 + c.IntN(5); k > 0; k-- {
		s += pick(c.Rand, parts)
	}
	return s
}

func init() {
	register("C36", "goroutines that build and use routers of their own, made of the same "+
		"texts, implementations, handlers and middlewares, goroutines that use the same "+
		"templates, and the cases of other properties side by side, in a binary with the race "+
		"detector; every result is compared to what it is alone; non-trivial: every case; "+
		"distinct by the results",
		func(run *Run) {
			run.Stage("routers", scale(700, 14000), worldsCase)
			run.Stage("templates", scale(1500, 30000), templatesCase)
			cases := []func(c *Case){
				parseCase, fuzzCase, matchCase, applyCase, similarCase, urlCase, lookupCase,
				mergeCase, ctorCase, configCase, bulkCase, methodsCase, servedCase, equivCase,
				implCase, twinCase, placeCase, propsCase, twinTreeCase, ownedCase, overlapCase,
				hostsCase, sharedMwCase, historyCase, argsCase,
			}
			run.Stage("side by side", scale(1500, 30000), func(c *Case) {
				i := c.IntN(len(cases))
				cases[i](c)
				c.Count(fmt.Sprint("side by side: ", i))
			})
		},
		"the race detector reports the races of the interleavings that occurred").race = true
}
