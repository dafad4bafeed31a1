package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "the repository")
	props := flag.String("prop", "", "properties, separated by commas (all: every one)")
	verif := flag.String("verif", "", "where evidence and known findings are kept")
	tier := flag.String("tier", "quick", "quick or thorough")
	debug := flag.String("dump", "", "pkg,recv,name,message: print the ways through a function")
	list := flag.Bool("list", false, "list the properties with a rule")
	flag.Parse()
	if *list {
		for _, r := range rules {
			fmt.Printf("%s\t%s\t%s\n", r.id, r.technique, r.what)
		}
		return
	}
	if *debug != "" {
		a := strings.Split(*debug, ",")
		p, err := load(*repo, "", "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if err := p.runInit(); err != nil {
			fmt.Println(err)
		}
		dump(newSuite(p), append(a, flag.Args()...))
		return
	}
	os.Exit(runChecks(*repo, *verif, *props, *tier))
}

// rule decides one property.
type rule struct {
	id        string
	run       func(*Check)
	technique string
	what      string // what is analysed and the rule applied
}

// config is a platform the module is built for.
type config struct{ os, arch string }

func (c config) String() string {
	if c.os == "" {
		return "host"
	}
	return c.os + "/" + c.arch
}

// platforms: the host and, when there is time, others whose int or choice of files differs.
func platforms(tier string) []config {
	r := []config{{}}
	if tier == "thorough" {
		r = append(r, config{"linux", "386"}, config{"linux", "arm64"}, config{"windows", "amd64"}, config{"js", "wasm"})
	}
	return r
}

func runChecks(repo, verif, props, tier string) int {
	start := time.Now()
	checks := map[string]*Check{}
	for i, cf := range platforms(tier) {
		p, err := load(repo, cf.os, cf.arch)
		var su *Suite
		if err == nil {
			err = p.runInit()
		}
		if err == nil {
			su = newSuite(p)
			su.deep = tier == "thorough" && i == 0
		}
		for _, r := range rules {
			if props != "all" && !contains(strings.Split(props, ","), r.id) {
				continue
			}
			var c *Check
			if err != nil {
				c = newCheck(&Suite{p: &Prog{}}, r.id)
				c.finds = append(c.finds, Finding{Rule: "load", Fn: "-", Pos: "-", Msg: err.Error()})
			} else {
				c = newCheck(su, r.id)
				guarded(c, r.run)
				c.conclude()
			}
			if i == 0 {
				checks[r.id] = c
				if tier == "thorough" {
					c.configs = append(c.configs, cf.String())
				}
			} else {
				checks[r.id].join(c, cf)
			}
		}
	}
	code := 0
	for _, r := range rules {
		if c := checks[r.id]; c != nil && report(c, r, repo, verif, tier, time.Since(start)) {
			code = 1
		}
	}
	return code
}

// join adds what was found on another platform.
func (c *Check) join(o *Check, cf config) {
	c.configs = append(c.configs, cf.String())
	c.paths += o.paths
	for n, k := range o.n {
		c.n[n] += k
	}
	have := map[string]bool{}
	for _, f := range c.finds {
		have[f.key()] = true
	}
	for _, f := range o.finds {
		if !have[f.key()] {
			f.Msg += " (" + cf.String() + ")"
			c.finds = append(c.finds, f)
		}
	}
}

// guarded runs a rule; a failure of the analyser itself decides nothing.
func guarded(c *Check, f func(*Check)) {
	if os.Getenv("WAMPCHECK_PANIC") == "" {
		defer func() {
			if x := recover(); x != nil {
				c.finds = append(c.finds, Finding{Rule: "analyser", Fn: "-", Pos: "-", Msg: fmt.Sprint("the analysis failed: ", x)})
			}
		}()
	}
	f(c)
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func dump(su *Suite, a []string) {
	p := su.p
	if a[0] == "acceptor" {
		su.explore("Acceptor", "NewAcceptor", len(a) > 1, nil, 4).dump(su)
		return
	}
	if a[0] == "joiner" {
		su.explore("Joiner", "NewJoiner", len(a) > 1, []string{"SendHello"}, 4).dump(su)
		return
	}
	if len(a) < 4 {
		return
	}
	r := su.entry(a[0], a[1], a[2], a[3])
	e := r.e
	for i, o := range r.outs {
		if len(a) > 4 {
			break
		}
		fmt.Println("=== outcome", i, o.panicked, o.rets)
		for f, v := range o.st.facts {
			fmt.Println("   ", v, f)
		}
		for _, ev := range o.st.Events(0) {
			fmt.Println("   >", ev.String())
		}
	}
	for _, o := range e.obligs {
		if o.Bad > 0 {
			fmt.Println("OBLIG", o.Kind, p.posStr(o.Pos), o.Why, o.Bad, o.Seen)
		}
	}
	var ns []string
	for n := range e.notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	fmt.Println(ns)
	fmt.Println(len(r.outs), "outcomes", e.steps, "steps", len(e.obligs), "obligations")
}

func (ev Event) String() string {
	k := []string{"store", "mapset", "mapdel", "call", "loop", "lock", "unlock", "oblig", "access", "go", "badlock"}[ev.Kind]
	return fmt.Sprint(k, " ", ev.Name, " ", ev.Addr, " ", ev.Key, " ", ev.Val, " ", ev.Args)
}
