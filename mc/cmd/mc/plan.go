package main

import (
	"fmt"
	"os"
	"strings"
)

// A step of a plan: one family on a choice of constructors.
type step struct {
	fam   string
	scope string // all17, reps, every (all constructors), strings, func, one
	parts int
}

// plan of a property: quick steps, then the further ones of the thorough tier.
type plan struct {
	quick    []step
	thorough []step
	level    string // model_checking unless given
}

var plans = map[string]plan{
	"C01": {
		quick: []step{
			{"lin:pairs", "all17", 1}, {"lin:tall16@1", "all17", 1}, {"lin:tallh@1", "all17", 1}, {"lin:psw", "all17", 1}, {"all:pairsx", "reps", 1}, {"lin:pairs+20", "all17", 1}, {"lin:pswb+30", "all17", 1}, {"lin:p12", "all17", 1}, {"lin:tris", "reps", 4}, {"lin:pairs+60", "reps", 2},
			{"lin:pup", "reps", 4}, {"lin:pupl", "reps", 4}, {"lin:tall", "reps", 4}, {"lin:p12+60", "reps", 8}, {"lin:p22s", "reps", 12}, {"lin:rr2", "reps", 4}, {"lin:tri", "reps", 8}, {"lin:pair", "reps", 2}},
		thorough: []step{
			{"lin:rr", "reps", 4}, {"lin:rr2", "all17", 1}, {"lin:rr5", "reps", 4}, {"lin:pup", "all17", 1}, {"lin:pair", "all17", 1}, {"lin:pall", "reps", 16}, {"lin:tall16@1", "all17", 1}, {"lin:tris", "all17", 2}, {"lin:p22", "reps", 12}, {"lin:p12x", "all17", 4}, {"lin:p13", "reps", 12}, {"lin:tri", "all17", 4}, {"lin:tri211@2", "reps", 8},
			{"lin:tri3@2", "reps", 8}, {"lin:quad@2", "reps", 8}, {"lin:p33@2", "reps", 8}, {"lin:p23", "reps", 16}, {"lin:tri211", "reps", 16}, {"lin:p22", "all17", 8},
			{"lin:pairs+60", "all17", 1}, {"lin:p12+60", "reps", 8}, {"lin:pswb+150", "reps", 1}},
	},
	"C02": {
		quick:    []step{{"bfs3", "every", 1}, {"tree4", "every", 1}, {"bfs4", "every", 1}, {"tree5", "all17", 2}, {"bfs5", "all17", 1}, {"bfstall2", "reps", 1}, {"bulk", "big", 1}, {"bulk300", "big", 1}, {"mass", "big", 1}},
		thorough: []step{{"mass300k", "big", 1}, {"bulk1k", "big", 2}, {"bfs5", "every", 1}, {"tree5", "every", 2}, {"tree6", "all17", 8}},
	},
	"C03": {
		quick: []step{
			{"iter:it2s", "all17", 1}, {"iter:tall16@1", "all17", 1}, {"iter:tallh@1", "reps", 2}, {"iter:it1", "all17", 1}, {"iter:itc", "all17", 1}, {"iter:it1+20", "reps", 2}, {"bulknest", "big", 1}, {"iter:it1+60", "reps", 4}, {"iter:itc2", "all17", 1}, {"iter:prd", "reps", 4}, {"iter:ittall", "reps", 4}, {"iter:it2s+20", "reps", 4}, {"iter:it2", "reps", 8}, {"iter:it11", "reps", 8}, {"iter:it3", "reps", 8}, {"iter:itc11", "reps", 4}},
		thorough: []step{{"iter:it2", "all17", 4}, {"iter:it1+20", "all17", 1}, {"iter:it11", "all17", 8}, {"iter:it3", "all17", 8}, {"iter:itc11", "all17", 4}, {"iter:prd", "all17", 1}, {"iter:pall", "reps", 16}, {"iter:ittall", "all17", 4}, {"iter:it12", "all17", 8}, {"iter:it22@2", "reps", 16}, {"iter:it111@2", "reps", 16}, {"iter:it1+60", "all17", 1}, {"iter:it2+60", "reps", 8}},
	},
	"C04": {
		quick:    []step{{"wait:rd2", "all17", 1}, {"wait:rd1", "all17", 1}, {"wait:rdtall", "all17", 1}, {"wait:rd11", "all17", 4}, {"wait:it2", "all17", 2}, {"wait:prd", "reps", 4}, {"wait:plen", "all17", 1}, {"wait:rd1+20", "all17", 1}, {"wait:rd1+60", "reps", 2}, {"wait:rd2+20", "reps", 4}},
		thorough: []step{{"wait:prd", "all17", 1}, {"wait:prdd", "reps", 16}, {"wait:it3", "all17", 4}, {"wait:it12", "all17", 8}, {"wait:it111@2", "reps", 16}, {"wait:rd111@2", "reps", 16}},
	},
	"C05": {
		quick: []step{
			{"prog:pairs", "all17", 1}, {"prog:tall16@1", "all17", 1}, {"prog:tallh@1", "all17", 1}, {"prog:psw", "all17", 1}, {"prog:pairs+20", "all17", 1}, {"prog:pswb+30", "all17", 1}, {"prog:p12", "all17", 1}, {"prog:tris", "reps", 4}, {"prog:rd2", "all17", 1},
			{"prog:pup", "reps", 4}, {"prog:pupl", "reps", 4}, {"prog:pairs+60", "reps", 2}, {"prog:it11", "reps", 4}, {"prog:tall", "reps", 4}, {"prog:p12+20", "reps", 4}, {"prog:rr2", "reps", 4}, {"prog:tri", "reps", 8}, {"prog:pairu", "all17", 1}},
		thorough: []step{
			{"prog:rr5", "reps", 4}, {"prog:pup", "all17", 1}, {"prog:pall", "reps", 16}, {"prog:tall16@1", "all17", 1}, {"prog:tris", "all17", 2}, {"prog:p22", "reps", 12}, {"prog:tri", "all17", 4}, {"prog:tall", "all17", 4}, {"prog:tri3@2", "reps", 8}, {"prog:p13", "reps", 12}, {"prog:quad@2", "reps", 8},
			{"prog:tall16@2", "reps", 4}, {"prog:tri211", "reps", 16},
		},
	},
	"C06": {
		quick: []step{
			{"race:pairs", "all17", 1}, {"race:tallh@1", "all17", 1}, {"race:it1", "all17", 1}, {"race:rdtall", "all17", 1}, {"race:p12", "all17", 1}, {"race:tris", "reps", 4}, {"race:len2", "all17", 1}, {"race:tall16@1", "all17", 1}, {"race:psw", "all17", 1}, {"race:news", "all17", 1}, {"race:pairsx", "reps", 1}, {"race:pairs+20", "all17", 1}, {"race:it1+60", "reps", 2}, {"race:pup", "reps", 4}, {"race:prd", "reps", 4}, {"race:pair", "all17", 1}, {"race:tall", "reps", 4},
			{"race:rd11", "reps", 4}, {"race:rr2", "reps", 4}, {"race:tri", "reps", 8}},
		thorough: []step{{"race:pup", "all17", 1}, {"race:pall", "reps", 16}, {"race:tris", "all17", 2}, {"race:tall", "all17", 4}, {"race:p12x", "all17", 4}, {"race:p22", "reps", 12}, {"race:it2", "all17", 4}, {"race:tri", "all17", 8}, {"race:tall3@1", "reps", 4}, {"race:it11", "reps", 8}, {"race:tri211", "reps", 16}},
	},
	"C07": {
		quick: []step{
			{"len:len2", "all17", 1}, {"len:tall16@1", "all17", 1}, {"len:tallh@1", "reps", 2}, {"len:pairu", "all17", 1}, {"len:len11", "all17", 2}, {"len:p12", "all17", 1}, {"len:lenc", "all17", 1}, {"bfs3", "all17", 1},
			{"len:psw", "all17", 1}, {"len:len2+20", "all17", 1}, {"bulk", "big", 1}, {"mass", "all17", 1}, {"len:plen", "all17", 1}, {"len:pup", "reps", 4}, {"len:pupl", "reps", 4}, {"len:len2+60", "reps", 2}, {"len:pswb+30", "reps", 1}, {"len:lenc11", "reps", 4}, {"len:rr2", "reps", 4}, {"len:len22", "reps", 8}, {"len:tri", "reps", 8}},
		thorough: []step{{"len:pup", "all17", 1}, {"len:lenc11", "all17", 2}, {"len:len22", "all17", 8}, {"len:p22", "reps", 12}, {"len:tri", "all17", 8}, {"len:p13", "reps", 12}, {"len:len111@2", "reps", 16}, {"len:tri211", "reps", 16}},
	},
	"C08": {
		quick:    []step{{"order", "every", 1}, {"perm", "every", 1}, {"order", "named", 1}, {"bfs3", "named", 1}, {"bfs4", "every", 1}, {"perm5", "every", 1}},
		thorough: []step{{"perm5", "named", 1}, {"bulk", "big", 1}, {"bfs5", "every", 1}, {"perm6", "every", 1}},
	},
	"C09": {
		quick:    []step{{"weak3", "func", 4}, {"weak4", "func", 4}, {"all:pairs", "weak", 1}, {"all:p12", "weak", 4}, {"all:it2s", "weak", 1}, {"all:pair", "weak", 1}, {"weak3d", "func", 16}, {"all:tris", "weak", 4}},
		thorough: []step{{"weak4d", "func", 32}, {"weak5", "func", 16}, {"all:tri", "weak", 8}, {"all:it2", "weak", 4}, {"all:p22", "weak", 16}},
	},
	"C10": {
		quick: []step{
			{"bfstall2", "all17", 1}, {"all:tallh@1", "all17", 1}, {"rawdraws", "all17", 1}, {"all:tall16@1", "all17", 1}, {"bfstall", "all17", 1}, {"all:tall", "reps", 6}, {"bulk", "big", 1}, {"all:tall+20", "reps", 6}},
		thorough: []step{{"all:pall", "reps", 16}, {"bulk300", "big", 1}, {"all:tall", "all17", 4}, {"bfstall", "every", 1}, {"rawdraws", "every", 1}, {"all:tall16@2", "all17", 4}, {"all:tall3@2", "reps", 16}, {"all:tall12", "reps", 16}},
	},
	"C11": {
		quick:    []step{{"bfsstop", "every", 1}, {"bfsstopt", "every", 1}, {"bfsstop5", "every", 1}, {"bulk", "big", 1}, {"bulk300", "big", 1}},
		thorough: []step{{"bulk1k", "big", 2}, {"bfsstop6", "every", 1}},
	},
	"C12": {
		quick: []step{
			{"nested1", "all17", 1}, {"deepnest", "all17", 1}, {"deepnest1k", "reps", 1}, {"reentrant", "func", 1}, {"freeze", "reps", 8}, {"nestconc", "all17", 1}, {"nested2", "all17", 1}, {"freeze", "rest17", 2}, {"bulknest", "big", 1}},
		thorough: []step{{"bulknest130", "big", 2}, {"nested1", "every", 1}, {"nested2", "every", 1}},
	},
	"C13": {
		quick: []step{
			{"bfsmem", "all17", 1}, {"mem:tall16@1", "all17", 1}, {"mem:tallh@1", "reps", 2}, {"churn", "all17", 1}, {"gc4", "strings", 2}, {"mem:pairu", "all17", 1}, {"mem:p12", "all17", 1}, {"mem:psw", "all17", 1}, {"mem:pswb+30", "reps", 1}, {"mem:tris", "reps", 2}, {"bulkmem", "big", 1}, {"mem:rr2", "reps", 4}, {"mem:pup", "reps", 4}},
		thorough: []step{{"mem:pupl", "reps", 4}, {"mem:pup", "all17", 1}, {"bulkmem1k", "big", 2}, {"bfsmem", "every", 1}, {"churn", "every", 1}, {"mem:p22", "reps", 12}, {"mem:tri", "all17", 4}, {"mem:tall", "reps", 4}, {"gc5", "strings", 8}},
	},
	"C14": {
		quick:    []step{{"two", "all17", 1}, {"twonew", "all17", 1}, {"manysets", "all17", 1}, {"manysets70k", "reps", 1}, {"twoseq", "all17", 1}, {"twoseqx", "all17", 1}},
		thorough: []step{{"twoseq", "every", 1}, {"manysets", "every", 1}, {"manysets70k", "all17", 1}, {"twoseqd", "reps", 16}},
	},
	"C15": {
		quick: []step{
			{"bfs3", "all17", 1}, {"all:tallh@1", "reps", 2}, {"order", "every", 1}, {"all:pairs", "all17", 1}, {"iter:it2s", "all17", 1}, {"len:len2", "all17", 1}, {"race:pairs", "all17", 1}, {"wait:rd1", "all17", 1}, {"all:tall16@1", "all17", 1},
			{"bfstall2", "all17", 1}, {"bfsmem", "reps", 1}, {"all:p12", "all17", 1}, {"all:tris", "reps", 4}, {"bulk", "big", 1}, {"all:pairs+20", "reps", 2}},
		thorough: []step{{"all:pall", "reps", 16}, {"all:tris", "all17", 2}, {"all:tall", "reps", 4}, {"all:tri", "reps", 8}, {"all:p22", "reps", 12}, {"iter:it2", "all17", 2}, {"nested1", "all17", 1}, {"all:pair", "all17", 2}},
	},
	"C16": {
		quick: []step{
			{"plain", "every", 1}, {"all:tallh@1", "reps", 2}, {"bfs3", "every", 1}, {"order", "every", 1}, {"bfstall2", "all17", 1}, {"all:pairs", "all17", 1}, {"all:it1", "all17", 1}, {"all:len2", "all17", 1}, {"weak3", "func", 4}, {"all:tris", "reps", 4}, {"bulk", "big", 1}, {"all:pairs+20", "reps", 2}},
		thorough: []step{{"bulk300", "big", 1}, {"all:p12", "all17", 1}, {"all:tri", "reps", 8}, {"bfs4", "every", 1}, {"all:tall", "all17", 2}, {"nested1", "all17", 1}, {"mem:pairu", "all17", 1}},
	},
	"C18": {
		quick:    []step{{"wait:far", "all17", 1}, {"wait:noop", "all17", 1}, {"wait:seen", "all17", 1}, {"wait:updrd", "all17", 1}, {"wait:updrd2", "all17", 1}, {"wait:noop2", "all17", 1}, {"wait:far2", "reps", 4}, {"wait:noop11", "reps", 4}, {"wait:far11", "reps", 8}, {"wait:farm+150", "all17", 1}, {"wait:farm+1100", "reps", 1}, {"wait:far+20", "all17", 1}, {"wait:noop+20", "all17", 1}, {"wait:updrd+20", "all17", 1}, {"wait:seen+20", "all17", 1}, {"wait:seen1", "reps", 8}},
		thorough: []step{{"wait:seen1", "all17", 2}, {"wait:far2", "all17", 2}, {"wait:noop11", "all17", 2}, {"wait:far11", "all17", 2}, {"wait:updrd11", "reps", 8}, {"wait:far22", "reps", 16}, {"wait:farm+1100", "all17", 1}},
	},
	"C17": {
		quick:    []step{{"cost", "big", 1}, {"cost4k", "big", 2}, {"cost16k", "big", 2}},
		thorough: []step{{"cost64k", "big", 6}},
		level:    "exploration",
	},
}

// reps picks one constructor per fingerprint of the set types.
func reps(classes map[string]string) []string {
	seen := map[string]bool{}
	var r []string
	for i := range BaseCtors {
		c := &BaseCtors[i]
		cl := classes[setTypeName(c)]
		if cl == "" {
			cl = c.Name
		}
		if !seen[cl] {
			seen[cl] = true
			r = append(r, c.Name)
		}
	}
	return r
}

func scopeCtors(scope string, classes map[string]string) (r []string) {
	rp := reps(classes)
	isRep := map[string]bool{}
	for _, n := range rp {
		isRep[n] = true
	}
	switch scope {
	case "reps":
		return rp
	case "all17":
		// representatives first
		r = append(r, rp...)
		for i := range BaseCtors {
			if !isRep[BaseCtors[i].Name] {
				r = append(r, BaseCtors[i].Name)
			}
		}
	case "rest17":
		for i := range BaseCtors {
			if !isRep[BaseCtors[i].Name] {
				r = append(r, BaseCtors[i].Name)
			}
		}
	case "every", "named":
		for i := range AllCtors {
			if AllCtors[i].Named != (scope == "named") {
				continue
			}
			r = append(r, AllCtors[i].Name)
		}
	case "big":
		for i := range AllCtors {
			if AllCtors[i].Big != nil {
				r = append(r, AllCtors[i].Name)
			}
		}
	case "strings":
		for i := range AllCtors {
			if _, ok := AllCtors[i].New().(rawer).raw().(rawSet[string]); ok {
				r = append(r, AllCtors[i].Name)
			}
		}
	case "func":
		return []string{"NewFunc[int]"}
	case "bitflag", "optionalArray":
		return []string{scope}
	case "weak":
		return []string{"NewFunc[weak]"}
	}
	return
}

func tasksFor(prop, tier string, classes map[string]string) (ts []Task) {
	p := plans[prop]
	steps := p.quick
	if prop == "ALL" { // everything any property asks for (development aid)
		for i := 1; i <= len(plans); i++ {
			q := plans[fmt.Sprintf("C%02d", i)]
			for _, s := range q.quick {
				if s.fam != "plain" {
					steps = append(steps, s)
				}
			}
		}
	}
	only := map[string]bool{} // development aid: these constructors only
	for _, c := range strings.Split(os.Getenv("VERIF_CTORS"), ",") {
		if c != "" {
			only[c] = true
		}
	}
	if tier == "thorough" {
		steps = append(append([]step(nil), steps...), p.thorough...)
	}
	seen := map[string]bool{}
	for _, s := range steps {
		for _, c := range scopeCtors(s.scope, classes) {
			if seen[s.fam+"|"+c] || len(only) > 0 && !only[c] {
				continue
			}
			seen[s.fam+"|"+c] = true
			for i := 0; i < s.parts; i++ {
				ts = append(ts, Task{ID: len(ts), Prop: prop, Ctor: c, Fam: s.fam, Part: i, Parts: s.parts, Tier: tier})
			}
		}
	}
	return
}
