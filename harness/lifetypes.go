package main

// lifeCase: one life of the server with goroutines held at the given statements.
type lifeCase struct {
	Sites   []int  `json:"sites"`
	Scen    string `json:"scen"`
	AtPause bool   `json:"cancel_at_pause"`
}

type lifeTask struct {
	IP     string     `json:"ip"`
	Cases  []lifeCase `json:"cases"`
	LimitS int        `json:"limit_s"`
	Sites  int        `json:"nsites"`
}

type lifeAnswer struct {
	Runs, Hits int64
	Capped     bool
	Failed     []lifeCase
	Msgs       []string
	Reached    []int // sites reached at all
}

// holdTask: every request is held at every statement it comes by while every other one is served.
type holdTask struct {
	Addr        string   `json:"addr"`
	Reqs        []string `json:"reqs"`
	Sites       int      `json:"nsites"`
	Part, Parts int
	LimitS      int     `json:"limit_s"`
	Only        *[3]int `json:"only,omitempty"` // held request, other request, statement
}

type holdAnswer struct {
	Runs, Hits int64
	Capped     bool
	Failed     [][3]int
	Msgs       []string
	Base       []string
}
