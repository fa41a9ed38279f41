// jtcheck decides the properties in /verif/properties.jsonl from the source of
// jt808-server-go, without running it.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory holding evidence/ and known_findings.txt")
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	dbg := flag.String("debug", "", "debug mode: process, fn")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	debug.SetGCPercent(400)
	if *dbg != "" {
		e, err := loadEngine(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if *dbg == "process" {
			id, _ := strconv.ParseInt(flag.Arg(0), 0, 64)
			debugProcess(e, id)
			return
		}
		debugMain(e, flag.Args())
		return
	}
	rc, n := 0, 0
	for _, p := range properties {
		if p.id != *prop {
			continue
		}
		n++
		e, err := safeLoad(*repo)
		if r := runProperty(e, err, p, *tier, *verif, t0); r != 0 {
			rc = r
		}
	}
	if n == 0 {
		fmt.Println("no such property:", *prop)
		rc = 2
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

func safeLoad(dir string) (e *Engine, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("analysis setup failed: %v", r)
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("analysis setup failed: %s", u.msg)
			}
		}
	}()
	return loadEngine(dir)
}
