package main

import (
	"fmt"
	"os"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func smoke(p *Program, args []string) {
	cfg := &Config{Trace: true, Unroll: func(*ssa.Function) int { return 4 }}
	if os.Getenv("LV") != "" {
		cfg.Leave = func(ev *Ev, o *Out) {
			fmt.Printf("LEAVE %s from %s -> %v panic=%v\n", ev.fn.Name(), ev.act.chain(), o.res, o.panic)
		}
	}
	r := NewRun(p, cfg, false)
	fmt.Println("init done", r.e.steps, len(r.e.objs))
	if !r.newLha() {
		fmt.Println("no lha")
	}
	switch args[0] {
	case "hdr":
		f := r.fn("GetHeader")
		h := r.e.obj("hdr", func(o *Obj) { o.lazy = true })
		rd := r.e.obj("rd", func(o *Obj) { o.lazy = true })
		outs := r.call(f, vPtr(Addr{h.id, 0}), vPtr(Addr{rd.id, 0}))
		for _, o := range outs {
			fmt.Println(o.res, o.panic)
		}
	case "dec", "enc":
		f := r.fn("DecodeLzhuf")
		fmt.Println(f)
		args := []*V{r.lha}
		for _, pa := range f.Params[1:] {
			v := vUnknown(pa.Type(), 0)
			if pa.Name() == "method" && len(os.Args) > 2 {
				n, _ := strconv.Atoi(os.Args[2])
				v = vInt(int64(n))
			}
			if pa.Type().String() == "*int" {
				o := r.e.obj("ri", func(o *Obj) { o.lazy = true })
				v = vPtr(Addr{o.id, 0})
			}
			args = append(args, v)
		}
		outs := r.call(f, args...)
		for _, o := range outs {
			fmt.Println(o.res, o.panic)
		}
	default:
		f := r.fn(args[0])
		as := []*V{}
		for _, pa := range f.Params {
			if pa.Type().String() == r.lhaT() {
				as = append(as, r.lha)
				continue
			}
			if pa.Type().String() == "*github.com/jeromelesaux/lha.LzHeader" {
				o := r.e.obj("hp", func(o *Obj) { o.lazy = true })
				as = append(as, vPtr(Addr{o.id, 0}))
				continue
			}
			v := vUnknown(pa.Type(), 0)
			as = append(as, v)
		}
		outs := r.call(f, as...)
		for _, o := range outs {
			fmt.Println(o.res, o.panic)
		}
	}
	fmt.Println("unknown ext:", r.e.unknownExt, "unsup", r.e.unsup, "forced", r.e.forced, "rec", r.e.recCut)
}
func (r *Run) lhaT() string { return "*" + r.p.lib.Type("Lha").Type().String() }
