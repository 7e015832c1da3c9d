//go:debug randseednop=0

// Command verifharness decides the properties of noise by generated cases.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"

	"verifharness/gen"
	"verifharness/vnet"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: verifharness run|worker|replay|gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker": // worker PROP SEED SIZE real|virt
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		size, _ := strconv.Atoi(os.Args[4])
		worker(os.Args[2], seed, size, os.Args[5] == "real")
	case "run": // run PROP TIER SEED DIR
		seed, err := strconv.ParseInt(os.Args[4], 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad seed", os.Args[4])
			os.Exit(2)
		}
		os.Exit(drive(os.Args[2], os.Args[3], seed, os.Args[5]))
	case "replay": // replay FILE [TIMES]
		n := 10
		if len(os.Args) > 3 {
			n, _ = strconv.Atoi(os.Args[3])
		}
		os.Exit(replay(os.Args[2], n))
	case "gen": // gen PROP SEED FROM TO
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		a, _ := strconv.Atoi(os.Args[4])
		b, _ := strconv.Atoi(os.Args[5])
		for i := a; i < b; i++ {
			js, _ := json.Marshal(props[os.Args[2]].gen(gen.New(seed, os.Args[2], i, 1)))
			fmt.Println(string(js))
		}
	default:
		os.Exit(2)
	}
}

type command struct {
	Op   string          `json:"op"`
	From int             `json:"from,omitempty"`
	To   int             `json:"to,omitempty"`
	Ch   []uint64        `json:"ch,omitempty"`
	Plan json.RawMessage `json:"plan,omitempty"`
}

func worker(prop string, seed int64, size int, real bool) {
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		os.Exit(2)
	}
	vnet.Install()
	debug.SetGCPercent(200)
	debug.SetTraceback("all")
	out := os.NewFile(3, "results")
	emit := func(r Result) {
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var cmd command
		if err := json.Unmarshal(line, &cmd); err != nil {
			fmt.Fprintln(os.Stderr, "bad command", err)
			os.Exit(2)
		}
		switch cmd.Op {
		case "range":
			for i := cmd.From; i < cmd.To; i++ {
				i := i
				emit(Result{S: &i})
				s := gen.New(seed, prop, i, size)
				plan := p.gen(s)
				r := execute(p, plan, real)
				r.R = &i
				if r.V != "" {
					r.Ch = s.Out
				} else if !r.NT || i%16 != 0 {
					r.Plan = nil
				}
				emit(r)
			}
		case "choices":
			s := gen.Replay(cmd.Ch, size)
			i := -1
			emit(Result{S: &i})
			r := execute(p, p.gen(s), real)
			r.R = &i
			r.Ch = s.Out
			emit(r)
		case "plan":
			plan, err := p.dec(cmd.Plan)
			if err != nil {
				fmt.Fprintln(os.Stderr, "bad plan", err)
				os.Exit(2)
			}
			i := -1
			emit(Result{S: &i})
			r := execute(p, plan, real)
			r.R = &i
			emit(r)
		}
		emit(Result{D: true})
		if f := os.Getenv("VERIF_HEAP"); f != "" {
			w, _ := os.Create(f)
			pprof.Lookup("heap").WriteTo(w, 0)
			w.Close()
			w, _ = os.Create(f + ".g")
			pprof.Lookup("goroutine").WriteTo(w, 1)
			w.Close()
		}
	}
}
