// Command driver runs recorded cases against the negotiators of /repo, through
// their public interface only, and writes down what they were observed to do.
// It does not judge anything: the verdicts are given by the specification.
package main

type Field struct {
	P bool     `json:"p"`
	L []string `json:"l"`
}

type Opt struct {
	O  string   `json:"o"`
	V  string   `json:"v"`
	N  int      `json:"n"`
	Vs []string `json:"vs"`
}

type Neg struct {
	Kind    string `json:"kind"`
	Default bool   `json:"default"`
	Opts    []Opt  `json:"opts"`
}

type RepSpec struct {
	Ct   string   `json:"ct"`
	Lang string   `json:"lang"`
	Cs   string   `json:"cs"`
	Enc  []string `json:"enc"`
	Feat []string `json:"feat"`
	Qs   int      `json:"qs"`
	Len  int      `json:"len"`
	Loc  string   `json:"loc"`
	Err  bool     `json:"err"`
	Same int      `json:"same,omitempty"` // the candidate (from 1) that this one is
	Rel  *Rel     `json:"rel,omitempty"`
}

// Rel gives the length of a candidate by that of a list document.
type Rel struct {
	To string `json:"to"`
	By int    `json:"by"`
}

type Script struct {
	Reps   int      `json:"reps"`
	Lists  int      `json:"lists"`
	Unless []string `json:"unless"`
}

type Exch struct {
	Neg      int            `json:"neg"`
	Creation bool           `json:"creation"`
	A        Field          `json:"a"`
	L        Field          `json:"l"`
	C        Field          `json:"c"`
	E        Field          `json:"e"`
	F        Field          `json:"f"`
	N        Field          `json:"n"`
	Url      string         `json:"url"`
	Reps     []RepSpec      `json:"reps"`
	Script   Script         `json:"script"`
	Lens     map[string]int `json:"lens"`
	Wfail    bool           `json:"wfail"`
	Preset   bool           `json:"preset"`
	Http     bool           `json:"http"`
}

type DocSpec struct {
	Name  string   `json:"name"`
	Ct    string   `json:"ct"`
	Lang  string   `json:"lang"`
	Cs    string   `json:"cs"`
	Enc   []string `json:"enc"`
	Qs    int      `json:"qs"`
	Fails bool     `json:"fails"`
}

type Case struct {
	Id       int                         `json:"id"`
	Kind     string                      `json:"kind"`
	Fam      string                      `json:"fam"`
	Conc     bool                        `json:"conc"`
	Sched    []int                       `json:"sched"`
	Burst    int                         `json:"burst"`
	Rounds   int                         `json:"rounds"`
	Races    int                         `json:"races"`
	Negs     []Neg                       `json:"negs"`
	Docs     []DocSpec                   `json:"docs"`
	Exch     []Exch                      `json:"exch"`
	Obs      []Obs                       `json:"obs"`
	Cnt      []map[string]map[string]int `json:"cnt"`
	CntOther int                         `json:"cntother"`
	Logs     []Entry                     `json:"logs"`
}

// Entry is what a logger was told about the outcome of an exchange; "?" and -1
// stand for what an entry does not state.
type Entry struct {
	Sink   int    `json:"sink"`
	Status int    `json:"status"`
	Clen   int    `json:"clen"`
	Type   string `json:"type"`
	Enc    string `json:"enc"`
	Lang   string `json:"lang"`
	Cs     string `json:"cs"`
	Loc    string `json:"loc"`
}

type Hdr struct {
	Type []string `json:"type"`
	Enc  []string `json:"enc"`
	Lang []string `json:"lang"`
	Cs   []string `json:"cs"`
	Loc  []string `json:"loc"`
	Clen []string `json:"clen"`
	Tcn  []string `json:"tcn"`
}

type Item struct {
	Ct   string   `json:"ct"`
	Lang string   `json:"lang"`
	Cs   string   `json:"cs"`
	Enc  []string `json:"enc"`
	Feat []string `json:"feat"`
	Loc  string   `json:"loc"`
	Qs   int      `json:"qs"`
}

type Body struct {
	K     string `json:"k"`
	Is    []int  `json:"is"`
	Fmt   string `json:"fmt"`
	Zip   bool   `json:"zip"`
	Items []Item `json:"items"`
}

type Variant struct {
	Uri      string   `json:"uri"`
	Qs       int      `json:"qs"`
	Type     string   `json:"type"`
	Charset  string   `json:"charset"`
	Language string   `json:"language"`
	Features []string `json:"features"`
	Length   int      `json:"length"`
}

type Alts struct {
	Ok     bool      `json:"ok"`
	Fields int       `json:"fields"`
	Vs     []Variant `json:"vs"`
	Fb     []string  `json:"fb"`
}

type Call struct {
	Of string `json:"of"`
	A  Field  `json:"a"`
	L  Field  `json:"l"`
	C  Field  `json:"c"`
	E  Field  `json:"e"`
	F  Field  `json:"f"`
	N  Field  `json:"n"`
}

type Built struct {
	Name     string `json:"name"`
	Complete bool   `json:"complete"`
}

type Obs struct {
	Ret      string  `json:"ret"`
	Limit    bool    `json:"limit"`
	Text     string  `json:"text"`
	Heads    int     `json:"heads"`
	Status   int     `json:"status"`
	Writes   int     `json:"writes"`
	Len      int     `json:"len"`
	Late     bool    `json:"late"`
	Readable bool    `json:"readable"`
	Touched  bool    `json:"touched"`
	Mutated  bool    `json:"mutated"`
	Hdr      Hdr     `json:"hdr"`
	Body     Body    `json:"body"`
	Alts     Alts    `json:"alts"`
	Calls    []Call  `json:"calls"`
	Built    []Built `json:"built"`
}
