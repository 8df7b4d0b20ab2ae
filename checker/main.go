package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// check decides one property.
type check struct {
	rule string // what is explained in the evidence
	run  func(P *Program, R *Report)
}

var checks = map[string]check{}

func main() {
	repo := flag.String("repo", "/repo", "the repository")
	eval := flag.String("eval", "", "debugging: evaluate a function")
	prof := flag.String("prof", "", "")
	super := flag.Bool("supervise", false, "report a crash of the analysis as undecided")
	prop := flag.String("prop", "", "the property to decide, or all")
	out := flag.String("out", "/verif/evidence", "where evidence is written")
	known := flag.String("known", "/verif/known_findings.txt", "the known findings")
	verbose := flag.Bool("v", false, "print all obligations")
	flag.BoolVar(&debugAssume, "assume", false, "")
	flag.StringVar(&debugScen, "scen", "", "v d i m s :type")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(15 * time.Second); pprof.StopCPUProfile(); f.Close(); panic("profiled") }()
	}
	if c, ok := checks[*prop]; ok && *super && os.Getenv("SPEEDCHECK_SUPERVISED") == "" {
		supervise(*prop, *out, *known, c.rule)
	}
	start := time.Now()
	P, err := Load(*repo)
	if *eval != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		debugEval(P, *eval)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var props []string
	if *prop == "all" {
		for p := range checks {
			props = append(props, p)
		}
		sort.Strings(props)
	} else {
		props = strings.Split(*prop, ",")
	}
	code := 0
	for i, p := range props {
		c, ok := checks[p]
		R := newReport(p, tier)
		if i > 0 {
			start = time.Now()
		}
		if !ok {
			fmt.Println("no check for", p)
			os.Exit(2)
		}
		if err != nil {
			R.Undecided("the repository", "%v", err)
		} else {
			if len(props) == 1 {
				go watch(R, start, *out, *known, c.rule)
			}
			protect(R, p, func() { c.run(P, R) })
		}
		if *verbose {
			for _, k := range R.order {
				o := R.obs[k]
				fmt.Printf("%v %s [%s] %s\n", o.OK, k, o.Pos, o.Detail)
			}
		}
		if x := R.finish(*out, *known, c.rule, start); x != 0 {
			code = x
		}
	}
	os.Exit(code)
}
