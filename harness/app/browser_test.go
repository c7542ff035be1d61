package app

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"net/http"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"golang.org/x/net/html"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

//go:embed testdata/browser.js
var browserJS string

func init() {
	mon.Reg("C25", "page-scripts", 24, 400, pageScripts)
	mon.Reg("C24", "timeline-view", 40, 800, timelineView)
}

// visit is what a visit to a page came to.
type visit struct {
	Sinks    [][2]string
	Texts    int
	Handlers int
	Errors   []string
	Steps    []struct {
		Did   bool
		Shown []string
		Nav   *string
	}
}

// visitPage runs the page's scripts in a stand-in for a browser and does what
// the actions say. There is no verdict if that is not possible here.
func visitPage(c *mon.Case, page string, actions [][]string) *visit {
	node, err := exec.LookPath("node")
	if err != nil {
		c.Count("pages not visited (no node)", 1)
		return nil
	}
	var scripts []string
	walk(parse(page), func(n *html.Node) {
		if n.Type != html.ElementNode || n.Data != "script" || attr(n, "src") != "" {
			return
		}
		scripts = append(scripts, text(n))
	})
	in, _ := json.Marshal(map[string]any{"scripts": scripts, "actions": actions})
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, node, "-e", browserJS)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = c.Scratch()
	outb, err := cmd.Output()
	var v visit
	if err != nil || json.Unmarshal(outb, &v) != nil {
		c.Count("pages not visited (node failed)", 1)
		return nil
	}
	c.Count("pages visited", 1)
	c.Count("scripts run", len(scripts))
	c.Count("event handlers the scripts installed", v.Handlers)
	if len(v.Errors) > 0 {
		c.Count("steps at which a script stopped with an error", len(v.Errors))
		c.Mark("error", v.Errors[0])
	}
	return &v
}

// pageScripts checks that the pages' scripts do not put collected text into the
// page as markup.
func pageScripts(c *mon.Case) {
	r := c.R
	a, s := memApp()
	rec := map[appdash.SpanID]timed{}
	id := distinct(r, 1)[0]
	ns := genTimed(r, id, 1+r.Intn(5), true, rec)
	forms := []string{
		"<mkX>", "<img src=x onerror=mkX>", "<script>mkX</script>", "GET /a?<mkX b=\"c\">", "é<mkX/>", "</span><mkX>",
		"<mkX>&lt;mkX&gt;", "'\"><mkX x='", "<svg/onload=mkX>",
	}
	hostile := map[string]string{}
	for i := range ns {
		f := strings.ReplaceAll(forms[r.Intn(len(forms))], "X", strconv.Itoa(i))
		if r.Intn(3) == 0 {
			f = strings.Repeat("long name ", r.Intn(4)) + f
		}
		hostile[ns[i].id.Span.String()] = f
		for j, an := range ns[i].anns {
			if an.Key == "Name" {
				ns[i].anns[j].Value = []byte(f)
			}
		}
		ns[i].anns = append(ns[i].anns, ad.Ann{Key: "k" + f, Value: []byte(f)})
	}
	collect(c, s, ns)
	m := http.NewServeMux()
	m.Handle("/", a)
	var acts [][]string
	for k := 0; k < 4; k++ {
		sp := ns[r.Intn(len(ns))].id.Span.String()
		acts = append(acts, []string{"hover", sp}, []string{"filter", sp, `Name:"` + hostile[sp] + `"`}, []string{"show", ns[0].id.Span.String()},
			[]string{"press", []string{"btnSortStartTime", "btnSortEndTime", "btnSortDuration", "btnSortLabel"}[r.Intn(4)]},
			[]string{"clicktext", sp})
	}
	urls := []string{"/traces/" + id.String(), "/traces", "/aggregate?view-mode=trace-and-span", "/dashboard", "/"}
	for _, n := range ns[1:] {
		if r.Intn(3) == 0 {
			urls = append(urls, "/traces/"+id.String()+"/"+n.id.Span.String())
		}
	}
	for _, u := range urls {
		p := get(m, u)
		if !p.ok() {
			continue // other monitors check that
		}
		v := visitPage(c, p.body, acts)
		if v == nil {
			continue
		}
		for _, k := range v.Sinks {
			c.Count("strings put into the page as markup", 1)
			for _, h := range hostile {
				i := strings.Index(h, "<")
				if strings.Contains(k[1], h[i:]) {
					c.Failf("escape", "a script of %s inserts the recorded name %q as markup (%s of %s)", u, h, k[0], cut(k[1]))
					return
				}
			}
		}
		c.Count("texts put into the page as text", v.Texts)
		for i, st := range v.Steps {
			if i > 0 && st.Did {
				c.Count("things done on the page: "+acts[i-1][0], 1)
			}
		}
		c.Mark(u, v.Texts, len(v.Sinks))
	}
	c.Sample("scripts of %d pages with %d hostile names", len(urls), len(ns))
}

// timelineView checks what the timeline shows after the visitor's actions
// against the data it was given.
func timelineView(c *mon.Case) {
	r := c.R
	a, s := memApp()
	rec := map[appdash.SpanID]timed{}
	id := distinct(r, 1)[0]
	n := 2 + r.Intn(8)
	collect(c, s, genTimed(r, id, n, true, rec))
	u := "/traces/" + id.String()
	p := get(a, u)
	var items []tlItem
	if err := scriptValue(parse(p.body), "data", &items); err != nil || len(items) == 0 {
		c.Count("pages without timeline data", 1)
		return
	}
	by := map[string]tlItem{}
	for _, it := range items {
		by[it.SpanID] = it
	}
	var acts [][]string
	for k := 5 + r.Intn(20); k > 0; k-- {
		it := items[r.Intn(len(items))]
		switch r.Intn(6) {
		case 0:
			b := []string{"btnSortStartTime", "btnSortEndTime", "btnSortDuration", "btnSortLabel"}[r.Intn(4)]
			for n := 1 + r.Intn(3); n > 0; n-- {
				acts = append(acts, []string{"press", b})
			}
		case 1, 2:
			acts = append(acts, []string{"show", it.SpanID})
		case 3:
			acts = append(acts, []string{"hide", it.SpanID})
		case 4:
			name := items[r.Intn(len(items))].Label
			if !strings.ContainsAny(name, ":") {
				acts = append(acts, []string{"filter", it.SpanID, `Name:"` + name + `"`})
			}
		case 5:
			acts = append(acts, []string{"click", it.SpanID})
		}
	}
	v := visitPage(c, p.body, acts)
	if v == nil {
		return
	}
	if len(v.Steps) != len(acts)+1 {
		c.Count("pages not visited (node failed)", 1)
		return
	}
	vis := map[string]bool{}
	for _, it := range items {
		vis[it.SpanID] = it.Visible
	}
	below := func(of string) (out []string) {
		for _, it := range items {
			for p := it.ParentSpanID; p != ""; p = by[p].ParentSpanID {
				if p == of {
					out = append(out, it.SpanID)
					break
				}
			}
		}
		return
	}
	desc := map[string]int{}
	for i, st := range v.Steps {
		what := "at first"
		if i > 0 {
			act := acts[i-1]
			what = "after " + strings.Join(act, " ")
			on := vis[act[len(act)-1]]
			if act[0] == "filter" {
				on = vis[act[1]]
			}
			if act[0] != "press" && st.Did != on {
				c.Failf("view", "%s: a span that is shown (%v) can be acted on: %v", what, on, st.Did)
				return
			}
			switch act[0] {
			case "show", "hide":
				if on {
					for _, d := range below(act[1]) {
						vis[d] = act[0] == "show"
					}
				}
			case "filter":
				if on {
					name := strings.TrimSuffix(strings.TrimPrefix(act[2], `Name:"`), `"`)
					for _, d := range below(act[1]) {
						vis[d] = by[d].Label == name
					}
				}
			case "click":
				if on && (st.Nav == nil || *st.Nav != by[act[1]].URL) {
					c.Failf("view", "%s: clicking span leads to %v, its page is %s", what, mustJSON(st.Nav), by[act[1]].URL)
				}
			case "press":
				if !st.Did {
					c.Failf("view", "nothing happens on %s", act[1])
					return
				}
				for k := range desc {
					if k != act[1] {
						delete(desc, k)
					}
				}
				desc[act[1]]++
				// (Times recorded in one millisecond, names in one spelling.)
				for j := 1; j < len(st.Shown); j++ {
					x, y := by[st.Shown[j-1]], by[st.Shown[j]]
					if len(x.Times) == 0 || len(y.Times) == 0 {
						continue
					}
					bad := false
					switch act[1] {
					case "btnSortStartTime":
						bad = x.Times[0].Start > y.Times[0].Start
					case "btnSortEndTime":
						bad = x.Times[0].End > y.Times[0].End
					case "btnSortDuration":
						bad = x.Times[0].Duration > y.Times[0].Duration
					case "btnSortLabel":
						bad = strings.ToLower(x.Label) > strings.ToLower(y.Label)
					}
					if desc[act[1]]%2 == 0 {
						x, y = y, x
						switch act[1] {
						case "btnSortStartTime":
							bad = x.Times[0].Start > y.Times[0].Start
						case "btnSortEndTime":
							bad = x.Times[0].End > y.Times[0].End
						case "btnSortDuration":
							bad = x.Times[0].Duration > y.Times[0].Duration
						case "btnSortLabel":
							bad = strings.ToLower(x.Label) > strings.ToLower(y.Label)
						}
					}
					if bad {
						c.Failf("view", "%s (%d times) the timeline shows %s next to %s: %s", what, desc[act[1]], st.Shown[j-1], st.Shown[j], cut(mustJSON(items)))
						return
					}
				}
				c.Count("orders of the timeline checked", 1)
			}
		}
		got := map[string]bool{}
		for _, id := range st.Shown {
			if got[id] {
				c.Failf("view", "%s the timeline shows span %s twice", what, id)
			}
			got[id] = true
		}
		for id, on := range vis {
			if got[id] != on {
				c.Failf("view", "%s the timeline shows span %s: %v, should be %v (step %d of %v)", what, id, got[id], on, i, acts)
				return
			}
		}
		c.Count("states of the timeline checked", 1)
		c.Mark(what, fmt.Sprint(st.Shown))
	}
	c.Sample("%d actions on a timeline of %d spans", len(acts), len(items))
}
