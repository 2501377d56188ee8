// Command driver runs the public API of go-dateparser on requests read from stdin (one JSON
// object per line) and writes one observation per request to stdout.
//
//	driver seq          run the requests one after another
//	driver par N M      run the requests on N goroutines, M times each, in a different order on each
//
// It uses nothing but the public API, so it observes what a user of the library observes.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "time/tzdata"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

type Zone struct {
	Name string `json:"name"` // IANA name, or name of the fixed zone
	Off  *int   `json:"off"`  // offset in seconds: a fixed zone
}

type Cfg struct {
	Nil      bool              `json:"nil"`
	Now      []int             `json:"now"` // y mo d h mi s ns
	NowZone  *Zone             `json:"nowzone"`
	Tz       *Zone             `json:"tz"`
	Langs    []string          `json:"langs"`
	Locales  []string          `json:"locales"`
	Region   string            `json:"region"`
	DefLangs []string          `json:"deflangs"`
	Prev     bool              `json:"prev"`
	Given    bool              `json:"given"`
	Order    string            `json:"order"`
	OrderFn  map[string]string `json:"orderfn"`
	DefOrder bool              `json:"deforder"` // use dps.DefaultDateOrder
	Dom      int               `json:"dom"`
	Moy      int               `json:"moy"`
	Src      int               `json:"src"`
	Strict   bool              `json:"strict"`
	Req      []string          `json:"req"`
	Skip     []string          `json:"skip"`
	Rtp      bool              `json:"rtp"`
	Pem      bool              `json:"pem"`
	Spare    bool              `json:"spare"` // give every slice spare capacity, to see writes into it
}

type Req struct {
	ID      int      `json:"id"`
	Op      string   `json:"op"`
	Sess    string   `json:"sess"`
	PTypes  []int    `json:"ptypes"`
	Detect  []string `json:"detect"`
	Cfg     Cfg      `json:"cfg"`
	Text    string   `json:"text"`
	Hex     string   `json:"hex"` // bytes of the text, when it is not UTF-8
	Formats []string `json:"formats"`
	Lang    string   `json:"lang"`
	Snap    bool     `json:"snap"`  // show the caller's data before and after the call
	Share   string   `json:"share"` // calls with the same name here use one and the same configuration and list of formats
}

type Dt struct {
	Some bool   `json:"some"`
	Y    int    `json:"y"`
	Mo   int    `json:"mo"`
	D    int    `json:"d"`
	H    int    `json:"h"`
	Mi   int    `json:"mi"`
	S    int    `json:"s"`
	Ns   int    `json:"ns"`
	Off  int    `json:"off"`
	Zone string `json:"zone"`
	Wd   int    `json:"wd"`
	Per  string `json:"per"`
	Loc  string `json:"loc"`
	Ed   int    `json:"ed"` // days since 1970-01-01 in UTC
	Es   int    `json:"es"` // second of that day
}

type Found struct {
	Text string `json:"text"`
	Dt   Dt     `json:"dt"`
}

type Resp struct {
	ID    int     `json:"id"`
	Run   int     `json:"run"`
	Err   string  `json:"err"`
	IsErr bool    `json:"iserr"`
	Dt    Dt      `json:"dt"`
	Found []Found `json:"found"`
	Lang  string  `json:"lang"`
	Out   string  `json:"out"`
	Num   int     `json:"num"`
	Panic string  `json:"panic"`
	Hang  bool    `json:"hang"`
	Mut   string  `json:"mut"`
	Was   string  `json:"was"`
	Now   string  `json:"now"`
	Ms    int     `json:"ms"`
	Beg   int64   `json:"beg"`
	End   int64   `json:"end"`
}

func floorDiv(a, b int64) (int64, int64) {
	q, r := a/b, a%b
	if r < 0 {
		q, r = q-1, r+b
	}
	return q, r
}

func toDt(d date.Date) Dt {
	t := d.Time
	name, off := t.Zone()
	ed, es := floorDiv(t.Unix(), 86400)
	return Dt{Some: !d.IsZero(), Y: t.Year(), Mo: int(t.Month()), D: t.Day(), H: t.Hour(), Mi: t.Minute(),
		S: t.Second(), Ns: t.Nanosecond(), Off: off, Zone: name, Wd: (int(t.Weekday())+6)%7 + 1,
		Per: d.Period.String(), Loc: d.Locale, Ed: int(ed), Es: int(es)}
}

func zone(z *Zone) *time.Location {
	if z == nil {
		return nil
	}
	if z.Off != nil {
		if z.Name == "UTC" && *z.Off == 0 {
			return time.UTC
		}
		return time.FixedZone(z.Name, *z.Off)
	}
	loc, err := time.LoadLocation(z.Name)
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver: bad zone:", err)
		os.Exit(4)
	}
	return loc
}

func spare(s []string) []string {
	r := make([]string, len(s), len(s)+4)
	copy(r, s)
	for i := len(s); i < cap(r); i++ {
		r[:cap(r)][i] = "spare"
	}
	return r
}

func (c Cfg) build() *dps.Configuration {
	if c.Nil {
		return nil
	}
	r := &dps.Configuration{
		Locales: c.Locales, Languages: c.Langs, Region: c.Region, TryPreviousLocales: c.Prev,
		UseGivenOrder: c.Given, DefaultLanguages: c.DefLangs, DefaultTimezone: zone(c.Tz),
		PreferredDayOfMonth: dps.PreferredDayOfMonth(c.Dom), PreferredMonthOfYear: dps.PreferredMonthOfYear(c.Moy),
		PreferredDateSource: dps.PreferredDateSource(c.Src), StrictParsing: c.Strict, RequiredParts: c.Req,
		SkipTokens: c.Skip, ReturnTimeAsPeriod: c.Rtp, PreserveEndOfMonth: c.Pem,
	}
	if c.Spare { // empty lists get spare capacity as well
		r.Locales, r.Languages, r.DefaultLanguages = spare(r.Locales), spare(r.Languages), spare(r.DefaultLanguages)
		r.RequiredParts, r.SkipTokens = spare(r.RequiredParts), spare(r.SkipTokens)
	}
	if len(c.Now) > 0 {
		loc := zone(c.NowZone)
		if loc == nil {
			loc = time.UTC
		}
		n := c.Now
		r.CurrentTime = time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], loc)
	}
	if c.DefOrder {
		r.DateOrder = dps.DefaultDateOrder
	} else if c.OrderFn != nil {
		fn := c.OrderFn
		r.DateOrder = func(l string) string {
			if o, ok := fn[l]; ok {
				return o
			}
			return fn["*"]
		}
	} else if c.Order != "" {
		o := c.Order
		r.DateOrder = func(string) string { return o }
	}
	return r
}

// snapshot writes down everything a caller can see of its own data, with the spare capacity.
func snapshot(c *dps.Configuration, formats []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q ", formats[:cap(formats)])
	if c == nil {
		return b.String()
	}
	v := reflect.ValueOf(*c)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		switch {
		case f.Kind() == reflect.Slice:
			fmt.Fprintf(&b, "%s=%d%q;", name, f.Len(), f.Slice3(0, f.Cap(), f.Cap()).Interface())
		case f.Kind() == reflect.Func:
			fmt.Fprintf(&b, "%s=%v;", name, f.Pointer())
		case f.Kind() == reflect.Pointer:
			fmt.Fprintf(&b, "%s=%p;", name, f.Interface())
		case f.Type() == reflect.TypeOf(time.Time{}):
			t := f.Interface().(time.Time)
			fmt.Fprintf(&b, "%s=%s %p;", name, t.Format(time.RFC3339Nano), t.Location())
		default:
			fmt.Fprintf(&b, "%s=%v;", name, f.Interface())
		}
	}
	return b.String()
}

var clock atomic.Int64

type shared struct {
	cfg     *dps.Configuration
	formats []string
	before  string
}

// owned is a parser with the lists that its caller gave to it.
type owned struct {
	p      *dps.Parser
	types  []dps.ParserType
	detect []string
}

// look writes down what the caller sees of the lists it gave to the parser.
func (o owned) look() string {
	s := fmt.Sprintf(" detect=%d%q", len(o.detect), o.detect[:cap(o.detect)])
	if len(o.types) > 0 {
		s += fmt.Sprintf(" types=%v of %v", o.types[:cap(o.types)], o.p.ParserTypes)
	}
	return s
}

type world struct {
	mu sync.Mutex
	m  map[string]owned
	c  map[string]shared
}

// data returns the configuration and the formats of a request, and what they look like to the caller.
func (w *world) data(r Req) shared {
	if r.Share != "" {
		w.mu.Lock()
		defer w.mu.Unlock()
		if s, ok := w.c[r.Share]; ok {
			return s
		}
	}
	s := shared{cfg: r.Cfg.build(), formats: r.Formats}
	if r.Cfg.Spare {
		s.formats = spare(s.formats)
	}
	s.before = snapshot(s.cfg, s.formats)
	if r.Share != "" {
		w.c[r.Share] = s
	}
	return s
}

func (w *world) parser(r Req) owned {
	mk := func() owned {
		o := owned{p: &dps.Parser{}}
		if len(r.PTypes) > 0 {
			o.types = make([]dps.ParserType, len(r.PTypes), len(r.PTypes)+3)
			for i, t := range r.PTypes {
				o.types[i] = dps.ParserType(t)
			}
			o.p.ParserTypes = o.types
		}
		if r.Detect != nil {
			o.detect = spare(r.Detect)
			d := o.detect
			o.p.DetectLanguagesFunction = func(string) []string { return d }
		}
		return o
	}
	if r.Sess == "" {
		return mk()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	o, ok := w.m[r.Sess]
	if !ok {
		o = mk()
		w.m[r.Sess] = o
	}
	return o
}

func (w *world) run(r Req) (resp Resp) {
	resp.ID = r.ID
	resp.Found = []Found{}
	start := time.Now()
	resp.Beg = clock.Add(1)
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			where := ""
			for _, l := range st {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/main.go:") {
					where = strings.TrimSpace(l)
					break
				}
			}
			resp.Panic = fmt.Sprintf("%v at %s", e, where)
		}
		resp.End = clock.Add(1)
		resp.Ms = int(time.Since(start).Milliseconds())
	}()

	own := w.data(r)
	cfg, formats, before := own.cfg, own.formats, own.before
	def := r.Sess == "default"
	var mine owned
	if !def {
		mine = w.parser(r)
	}
	p := mine.p
	lists := mine.look()
	var err error
	switch r.Op {
	case "parse":
		var d date.Date
		if def {
			d, err = dps.Parse(cfg, r.Text, formats...)
		} else {
			d, err = p.Parse(cfg, r.Text, formats...)
		}
		resp.Dt = toDt(d)
	case "hijri", "jalali":
		var d date.Date
		if r.Op == "hijri" {
			d, err = dps.ParseHijri(cfg, r.Text)
		} else {
			d, err = dps.ParseJalali(cfg, r.Text)
		}
		resp.Dt = toDt(d)
	case "search":
		var res []dps.SearchResult
		if def {
			resp.Lang, res, err = dps.Search(cfg, r.Text)
		} else {
			resp.Lang, res, err = p.Search(cfg, r.Text)
		}
		for _, f := range res {
			resp.Found = append(resp.Found, Found{f.Text, toDt(f.Date)})
		}
	case "searchlang":
		var res []dps.SearchResult
		res, err = p.SearchWithLanguage(cfg, r.Lang, r.Text)
		for _, f := range res {
			resp.Found = append(resp.Found, Found{f.Text, toDt(f.Date)})
		}
	case "poptz":
		s, name, off := dps.PopTzOffset(r.Text)
		resp.Out, resp.Lang, resp.Num = s, name, off
	case "known":
		if dps.IsKnownLocale(r.Text) {
			resp.Num = 1
		}
	case "deforder":
		resp.Out = dps.DefaultDateOrder(r.Text)
	default:
		fmt.Fprintln(os.Stderr, "driver: bad op", r.Op)
		os.Exit(4)
	}
	if err != nil {
		resp.IsErr, resp.Err = true, err.Error()
	}
	after := snapshot(cfg, formats) + mine.look()
	before += lists
	if after != before {
		resp.Mut = before + " -> " + after
	}
	if r.Snap {
		resp.Was, resp.Now = before, after
	}
	return resp
}

// guarded runs one request and gives up on it when it does not come back.
func (w *world) guarded(r Req, limit time.Duration) (Resp, bool) {
	ch := make(chan Resp, 1)
	go func() { ch <- w.run(r) }()
	select {
	case resp := <-ch:
		return resp, true
	case <-time.After(limit):
		return Resp{ID: r.ID, Hang: true, Found: []Found{}, Ms: int(limit.Milliseconds())}, false
	}
}

func main() {
	limit := 60 * time.Second
	if s := os.Getenv("DRIVER_LIMIT_S"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	var reqs []Req
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r Req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, "driver: bad request:", err)
			os.Exit(4)
		}
		if r.Hex != "" {
			b, err := hex.DecodeString(r.Hex)
			if err != nil {
				fmt.Fprintln(os.Stderr, "driver: bad request:", err)
				os.Exit(4)
			}
			r.Text = string(b)
		}
		reqs = append(reqs, r)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	w := &world{m: map[string]owned{}, c: map[string]shared{}}

	switch os.Args[1] {
	case "seq":
		for _, r := range reqs {
			resp, ok := w.guarded(r, limit)
			enc.Encode(resp)
			out.Flush()
			if !ok {
				os.Exit(3)
			}
		}
	case "par":
		n, _ := strconv.Atoi(os.Args[2])
		m, _ := strconv.Atoi(os.Args[3])
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		var mu sync.Mutex
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(int64(seed*1000 + g)))
				<-gate
				for k := 0; k < m; k++ {
					order := rnd.Perm(len(reqs))
					if g%2 == 0 { // half of them go through the requests in the same order, to meet at first uses
						for i := range order {
							order[i] = i
						}
					}
					for _, i := range order {
						resp := w.run(reqs[i])
						resp.Run = g*m + k
						mu.Lock()
						enc.Encode(resp)
						mu.Unlock()
					}
				}
			}(g)
		}
		close(gate)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(limit):
			mu.Lock()
			enc.Encode(Resp{ID: -1, Hang: true, Found: []Found{}})
			out.Flush()
			os.Exit(3)
		}
		out.Flush()
	}
}
