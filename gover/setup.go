package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newVerifier(repo, specs string) (*Verifier, error) {
	p, err := loadProgram(repo, []string{modPath})
	if err != nil {
		return nil, err
	}
	sf, err := parseSpecs(specs)
	if err != nil {
		return nil, err
	}
	bindNames(p, sf, filepath.Join(specs, "params.txt"))
	p.gl = p.scanGlobals()
	v := &Verifier{p: p, spec: sf, s: newSolvers(8), loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		gids: map[*ssa.Global]int{}, effort: len(plan)}
	for _, tp := range p.tpkgs {
		for _, im := range tp.Imports() {
			if im.Path() == "math/big" {
				v.bigInt = im.Scope().Lookup("Int").(*types.TypeName).Type()
			}
		}
	}
	return v, nil
}

// Contracts name parameters as they were called when the contract was written
// (contracts/params.txt) and are bound by position, so renaming a parameter
// changes nothing.
var (
	paramNames = map[*ssa.Parameter]string{}
	allocNames = map[*ssa.Function]map[string]string{}
)

func pn(p *ssa.Parameter) string {
	if n, ok := paramNames[p]; ok {
		return n
	}
	return p.Name()
}

func bindNames(p *Program, sf *SpecFile, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		w := strings.Split(line, "\t")
		if len(w) != 3 || sf.contracts[w[0]] == nil {
			continue
		}
		con := sf.contracts[w[0]]
		fn := p.funcs[w[0]]
		if fn == nil {
			continue
		}
		names := strings.Fields(w[1])
		if sigString(fn) != w[2] || len(names) != len(fn.Params) {
			con.stale = true
			continue
		}
		ren := map[string]string{}
		for i, q := range fn.Params {
			if q.Name() != names[i] {
				paramNames[q] = names[i]
				ren[q.Name()] = names[i]
			}
		}
		if len(ren) > 0 {
			allocNames[fn] = ren
		}
	}
}

func sigString(fn *ssa.Function) string {
	var t []string
	for _, q := range fn.Params {
		t = append(t, q.Type().String())
	}
	t = append(t, "->")
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t = append(t, fn.Signature.Results().At(i).Type().String())
	}
	return strings.Join(t, " ")
}

// writeParams records the parameter names the contracts use.
func writeParams(p *Program, sf *SpecFile, file string) error {
	var out []string
	for n := range sf.contracts {
		fn := p.funcs[n]
		if fn == nil {
			continue
		}
		var names []string
		for _, q := range fn.Params {
			names = append(names, q.Name())
		}
		out = append(out, fmt.Sprintf("%s\t%s\t%s", n, strings.Join(names, " "), sigString(fn)))
	}
	sort.Strings(out)
	return os.WriteFile(file, []byte(strings.Join(out, "\n")+"\n"), 0o644)
}
