// vdrv drives the real sonirico/visigoth code with behaviours of the TLA+
// specifications and compares, or records traces for the specifications to
// judge.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

var (
	fIn      = flag.String("in", "", "input file(s), comma separated (TLC output)")
	fOut     = flag.String("out", "", "report file")
	fTrace   = flag.String("trace", "", "trace file to write")
	fShard   = flag.Int("shard", 0, "shard number")
	fShards  = flag.Int("shards", 1, "number of shards")
	fSeed    = flag.Int64("seed", 1, "random seed")
	fMode    = flag.String("mode", "", "variant of the driver")
	fNative  = flag.Bool("native", false, "code is not instrumented")
	fBudget  = flag.Duration("budget", 0, "stop starting new work after this time (0: none)")
	fBound   = flag.Int("bound", 2, "preemption bound")
	fCap     = flag.Int("cap", 2000, "schedules per program")
	fMax     = flag.Int("max", 0, "at most this many programs over all shards (0: all)")
	fReps    = flag.Int("reps", 1, "repetitions")
	fProfile = flag.String("profile", "", "only this text profile")
)

var started = time.Now()

func overBudget() bool { return *fBudget > 0 && time.Since(started) > *fBudget }

// lines calls f with every JSON line TLC printed into the files.
func lines(files string, f func([]byte)) {
	for _, name := range strings.Split(files, ",") {
		if name == "" {
			continue
		}
		fd, err := os.Open(name)
		if err != nil {
			die("%v", err)
		}
		rd := bufio.NewReaderSize(fd, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if strings.HasPrefix(l, `"{`) || strings.HasPrefix(l, `"[`) {
				l = strings.TrimRight(l, "\r\n")
				var s string
				if e := json.Unmarshal([]byte(l), &s); e != nil {
					die("bad line in %s: %v: %.200s", name, e, l)
				}
				f([]byte(s))
			} else if strings.HasPrefix(l, "{") {
				f([]byte(l))
			}
			if err != nil {
				break
			}
		}
		fd.Close()
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vdrv COMMAND flags")
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	flag.Parse()
	native = *fNative
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(64 << 20)
	heart(cmd, 60*time.Second)
	if !native {
		watchdog(8 * time.Second)
	}
	if err := checkWords(); err != nil {
		die("word list: %v", err)
	}
	switch cmd {
	case "graph":
		cmdGraph()
	case "walk":
		cmdWalk()
	case "par":
		cmdPar()
	case "engines":
		cmdEngines()
	case "analyze":
		cmdAnalyze()
	case "text":
		cmdText()
	case "verbatim":
		cmdVerbatim()
	case "regions":
		cmdRegions()
	case "custom":
		cmdCustom()
	case "stream":
		cmdStream()
	case "twin":
		cmdTwin()
	case "dump":
		cmdDump()
	case "eng":
		cmdEng()
	case "sort":
		cmdSort()
	case "keys":
		cmdKeys()
	case "wire":
		cmdWire()
	default:
		die("unknown command %s", cmd)
	}
	rep.write(*fOut)
}
