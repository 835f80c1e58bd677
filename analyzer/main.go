package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

// assumptions per property, written into the evidence.
var assumptions = map[string][]string{}

type property struct {
	id      string
	run     func(*Ctx)
	floor   int
	explain string
}

var properties []property

func register(id string, floor int, explain string, run func(*Ctx), assume ...string) {
	properties = append(properties, property{id, run, floor, explain})
	assumptions[id] = assume
}

//go:embed explain.json
var explainJSON []byte

// explained fills in what tools/gen.py says about the properties.
func explained() error {
	var m map[string]struct {
		Explain string
		Floor   int
		Assume  []string
	}
	if err := json.Unmarshal(explainJSON, &m); err != nil {
		return err
	}
	for i := range properties {
		pr := &properties[i]
		if x, ok := m[pr.id]; ok {
			pr.explain, pr.floor = x.Explain, x.Floor
			assumptions[pr.id] = x.Assume
		}
	}
	return nil
}

func main() {
	if err := explained(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		p, err := Load(dir, nil, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		parts := strings.Split(os.Args[2], ".")
		opq := opaqueStore(p)
		if os.Getenv("OPQ") == "service" {
			opq = opaqueService(p)
		}
		if len(os.Args) > 3 {
			opq = nil
		}
		var g *Graph
		if len(parts) == 2 {
			g = p.NewGraph(p.Func(parts[0], parts[1]), opq)
		} else {
			g = p.NewGraph(p.MethodOf(parts[0], parts[1], parts[2]), opq)
		}
		g.Dump()
		return
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for _, pr := range properties {
			ids = append(ids, pr.id)
		}
	}
	known, err := loadKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(ids) == 3 && ids[0] == "edit" {
		for i := range properties {
			if properties[i].id == ids[1] {
				tryEdit(dir, verif, &properties[i], ids[2], known)
			}
		}
		return
	}
	p, lerr := Load(dir, nil, nil)
	code := 0
	for _, id := range ids {
		var pr *property
		for i := range properties {
			if properties[i].id == id {
				pr = &properties[i]
			}
		}
		if pr == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if r := runOne(dir, p, lerr, pr, verif, tier, known); r > code {
			code = r
		}
	}
	os.Exit(code)
}

func runOne(dir string, p *Prog, lerr error, pr *property, verif, tier string, known []Known) (code int) {
	start := time.Now()
	if p == nil {
		p = &Prog{}
	}
	c := newCtx(p, pr.id, tier)
	if lerr != nil {
		c.bad("load", "module", "", lerr.Error())
		return c.finish(verif, pr.explain, 0, start, known)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println(st)
				}
				c.bad("analysis", "panic", "", fmt.Sprint(r))
			}
		}()
		pr.run(c)
	}()
	if tier == "thorough" {
		c.otherPlatforms(dir, pr)
		c.extra = c.sensitivity(verif, 540*time.Second-time.Since(start))
	}
	return c.finish(verif, pr.explain, pr.floor, start, known)
}

func init() {
	register("C01", 1, "", ruleC01)
	register("C02", 1, "", ruleC02)
}
