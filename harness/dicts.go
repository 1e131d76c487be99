package main

import (
	"encoding/json"
	"sync"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
)

var (
	ipaOnce, uniOnce, ipaShrinkOnce, uniShrinkOnce sync.Once
	ipaEntries, uniEntries                         []Entry
)

func ipaDict() *dict.Dict {
	ipaOnce.Do(func() { ipaEntries = enumerate(ipa.Dict().Index.Da, ipa.Dict().Index.Dup) })
	return ipa.Dict()
}

func uniDict() *dict.Dict {
	uniOnce.Do(func() { uniEntries = enumerate(uni.Dict().Index.Da, uni.Dict().Index.Dup) })
	return uni.Dict()
}

// shrunk returns the dictionary as it is when loaded without contents.
func shrunk(d *dict.Dict) *dict.Dict {
	x := *d
	x.Contents = nil
	return &x
}

func ipaCfg(users ...string) *DictCfg {
	d := ipaDict()
	name := "ipa"
	var u *dict.UserDict
	if len(users) > 0 {
		u = userDict(users)
		name = "ipa+user"
	}
	c := newCfg(name, d, u, ipaEntries)
	c.setKey(must(json.Marshal(Key{Base: "ipa", User: users})))
	return c
}

func uniCfg(users ...string) *DictCfg {
	d := uniDict()
	var u *dict.UserDict
	if len(users) > 0 {
		u = userDict(users)
	}
	c := newCfg("uni", d, u, uniEntries)
	c.setKey(must(json.Marshal(Key{Base: "uni", User: users})))
	return c
}

func cfgFromKey(s string) *DictCfg {
	var k Key
	if err := json.Unmarshal([]byte(s), &k); err != nil {
		panic(err)
	}
	switch k.Base {
	case "ipa":
		return ipaCfg(k.User...)
	case "uni":
		return uniCfg(k.User...)
	}
	return k.Synth.cfg()
}
