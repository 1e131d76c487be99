package main

// sop is one operation of a history or of a goroutine.
type sop struct {
	Cfg  int    `json:"cfg,omitempty"`
	API  string `json:"api"`
	Mode int    `json:"mode,omitempty"`
	In   B      `json:"in"`
}

// schedJob: goroutines that run operations after a warm-up, with a policy of the pools.
type schedJob struct {
	Warm    []sop   `json:"warm,omitempty"`
	Threads [][]sop `json:"threads"`
	Policy  int     `json:"policy"`
}

func (j schedJob) http() bool {
	for _, t := range j.Threads {
		for _, o := range t {
			if o.API == "http" {
				return true
			}
		}
	}
	return false
}

type schedTask struct {
	Jobs   []schedJob        `json:"jobs"`
	Bound  int               `json:"bound"`
	Fine   bool              `json:"fine"`
	Cold   bool              `json:"cold"`
	LimitS int               `json:"limit_s"`
	Base   map[string]string `json:"base"`
}

// seqTask: histories of operations to run one after the other.
type seqTask struct {
	Ops         []sop    `json:"ops"`
	Base        []string `json:"base"`
	Depth       int      `json:"depth"`
	Policy      int      `json:"policy"`
	Part, Parts int
	LimitS      int `json:"limit_s"`
}

type seqAnswer struct {
	Histories, Calls, Reuses int64
	PoolStates               int
	Capped, Long             bool
	Msg                      string
	Policy                   int
	Failed                   []sop
}
