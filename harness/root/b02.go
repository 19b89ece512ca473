package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

type vfRule struct {
	kind   int // 0 plain, 1 leading dot, 2 wildcard
	labels []string
}

func vfLabels(label string, n int, alphabet string) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, zzvf.StrOf(label, 1, alphabet))
	}
	return l
}

func (r vfRule) text(dot bool) string {
	s := []string{"", ".", "*."}[r.kind]
	for i, l := range r.labels {
		if i > 0 {
			s += "."
		}
		s += l
	}
	if dot {
		s += "."
	}
	return s
}

// matches is the meaning of a rule: equal from the right, at label boundaries.
func (r vfRule) matches(name []string, sub bool) bool {
	d := len(name) - len(r.labels)
	if d < 0 || r.kind == 2 && d == 0 || r.kind == 0 && d != 0 && !sub {
		return false
	}
	ok := true
	for i := range r.labels {
		ok = ok && vfFold(r.labels[i], name[d+i])
	}
	return ok
}

func vfDomainRules(nrules, maxLabels, maxName int, alphabet string) {
	sub := zzvf.Choose("subdomains", 2) == 1
	var rules []vfRule
	var text []string
	for i := 0; i < nrules; i++ {
		r := vfRule{kind: zzvf.Choose("kind", 3), labels: vfLabels("rule", 1+zzvf.Choose("rlen", maxLabels), alphabet)}
		rules = append(rules, r)
		t := r.text(i == 0 && zzvf.Choose("dot", 2) == 1)
		if i == 1 {
			t = " " + t + " "
		}
		text = append(text, t)
	}
	name := vfLabels("name", 1+zzvf.Choose("nlen", maxName), alphabet)
	want := false
	for _, r := range rules {
		want = want || r.matches(name, sub)
	}
	var db BlocklistDB
	var err error
	if sub {
		db, err = NewDomainSubdomainDB("l", vfLoader{text})
	} else {
		db, err = NewDomainDB("l", vfLoader{text})
	}
	zzvf.Assert(err == nil, "the rules are accepted")
	q := new(dns.Msg)
	s := ""
	for _, l := range name {
		s += l + "."
	}
	q.SetQuestion(s, dns.TypeA)
	_, _, m, got := db.Match(q)
	zzvf.Assert(got == want, "a name is matched exactly when a rule describes it")
	if got {
		zzvf.Assert(m != nil && m.List == "l", "a match names the list")
		zzvf.Cover("match")
	} else {
		zzvf.Cover("no match")
	}
}

// Two rules of 1 to 3 labels, names of 1 to 3 (thorough: 4) labels, labels of one letter out
// of a, b, A; every kind and order; bare rules also in subdomain mode.
func VF_B02_two() { vfDomainRules(2, 3, 3+zzvf.Tier(), "abA") }

// Three rules of 1 or 2 labels, names of 1 to 3 labels, labels a or b.
func VF_B02_three() { vfDomainRules(3, 2, 3, "ab") }

// One rule of one or two labels, each any two letters, hyphen or digit, names of
// one to three such labels.
func VF_B02_text() {
	r := vfRule{kind: zzvf.Choose("kind", 3)}
	const ab = "abyzABYZ019-_"
	n := 1 + zzvf.Choose("rlen", 2)
	for i := 0; i < n; i++ {
		r.labels = append(r.labels, zzvf.StrOf("rule", 1+zzvf.Choose("rl", 2), ab))
	}
	var name []string
	s := ""
	n = 1 + zzvf.Choose("nlen", 3)
	for i := 0; i < n; i++ {
		l := zzvf.StrOf("name", 1+zzvf.Choose("nl", 2), ab)
		name = append(name, l)
		s += l + "."
	}
	db, err := NewDomainDB("l", vfLoader{[]string{r.text(false)}})
	zzvf.Assert(err == nil, "the rule is accepted")
	q := new(dns.Msg)
	q.SetQuestion(s, dns.TypeA)
	_, _, _, got := db.Match(q)
	zzvf.Assert(got == r.matches(name, false), "a name is matched exactly when the rule describes it")
	if got {
		zzvf.Cover("match")
	}
}
