// A04: the watcher always runs the latest version of the program, once.
//
// The real watcher runs under a virtual clock in a scratch directory, with
// stand-ins for the compiler and for the watched program. All histories of
// edits up to a depth are run; after each one it must have come to rest with
// exactly the right program running.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/mc"
)

type job struct {
	Bin         string `json:",omitempty"`
	Dir, File   string
	Flags, Args []string
	Steps       []string
}

type inst struct{ Version, Dir, Args string }

type state struct {
	Compiles []string
	Running  []inst
	Overlap  bool
}

// goScript stands in for "go build [-race=x] FILE": the program it makes tells
// who it is and then sleeps (or quits).
const goScript = `#!/bin/sh
S="$VERIF_S"
for last; do :; done
f="$last"
if [ -e $S/before-read ]; then mv $S/before-read "$f"; fi
read -r v <"$f"
if [ -e $S/after-read ]; then mv $S/after-read "$f"; fi
echo "$v|$PWD|$*" >>$S/log/compiles
b="${f##*/}"; b="${b%.*}"
case $v in
bad-*) exit 1;;
none-*) rm -f "$b"; exit 0;;
esac
cat >"$b" <<X
#!/bin/sh
v=$v
S="$S"
for f in \$S/log/inst.*; do
	p="\${f##*.}"
	if [ "\$p" != "\$$" ] && [ -e /proc/\$p/stat ]; then
		read -r l </proc/\$p/stat
		case "\${l##*)}" in
		" Z"*|" X"*) ;;
		*) : >\$S/log/overlap;;
		esac
	fi
done
printf '%s\n%s\n%s\n' "\$v" "\$PWD" "\$*" >\$S/log/tmp.\$$
mv \$S/log/tmp.\$$ \$S/log/inst.\$$
case "\$v" in quit-*) exit 3;; esac
exec sleep 600
X
chmod +x "$b"
exit 0
`

var seq int64

func run(k *mc.K, j job) []state {
	dir := filepath.Join(os.Args[2], fmt.Sprintf("s%d", atomic.AddInt64(&seq, 1)))
	for _, d := range []string{"/log", "/sub"} {
		if err := os.MkdirAll(dir+d, 0777); err != nil {
			panic(err)
		}
	}
	defer os.RemoveAll(dir)
	j.Dir = dir
	j.File = strings.Replace(j.File, "$DIR", dir, 1)
	b, _ := json.Marshal(j)
	c := exec.Command(os.Args[1], "-test.run", "TestVerif", "-test.timeout", "0")
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer r.Close()
	var errb bytes.Buffer
	c.Stderr, c.Stdout = &errb, &errb
	c.ExtraFiles = []*os.File{w}
	c.Env = append(os.Environ(), "VERIF_JOB="+string(b), "VERIF_S="+dir, "PATH="+filepath.Join(os.Args[2], "bin"+j.Bin)+":/usr/bin:/bin", "GOMAXPROCS=1")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.WaitDelay = time.Second
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot run the watcher:", err)
		os.Exit(2)
	}
	w.Close()
	timeout := false
	t := time.AfterFunc(60*time.Second, func() { timeout = true; syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	var out []state
	sc := bufio.NewScanner(r)
	sc.Buffer(nil, 1<<20)
	for len(out) < len(j.Steps) && sc.Scan() {
		var s state
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		for i := range s.Compiles {
			s.Compiles[i] = strings.Replace(s.Compiles[i], dir, "$DIR", -1)
		}
		for i := range s.Running {
			s.Running[i].Dir = strings.Replace(s.Running[i].Dir, dir, "$DIR", -1)
		}
		out = append(out, s)
	}
	err = c.Wait()
	t.Stop()
	syscall.Kill(-c.Process.Pid, syscall.SIGKILL) // whatever is left of it
	if len(out) < len(j.Steps) {
		e := errb.String()
		if i := strings.Index(e, "panic: "); i >= 0 {
			e = e[i:]
		}
		if len(e) > 1200 {
			e = e[:1200]
		}
		if timeout {
			e = "it does not come to rest"
		}
		k.Fatal("after %v: the watcher ended or hung (%v): %s", j.Steps[:len(out)+1], err, e)
	}
	return out
}

func check(k *mc.K, j job) {
	k.Desc("%s %v %v: %v", j.File, j.Flags, j.Args, j.Steps)
	out := run(k, j)
	k.Op(len(out))
	dir := filepath.Dir(j.File)
	switch {
	case dir == ".":
		dir = "$DIR"
	case !strings.HasPrefix(dir, "$DIR"):
		dir = filepath.Join("$DIR", dir)
	}
	base := filepath.Base(j.File)
	name := strings.TrimSuffix(base, filepath.Ext(base))
	args := strings.Join(append([]string{"-o", name + ".jpg"}, j.Args...), " ")
	race := "false"
	for _, f := range j.Flags {
		if f == "-race" {
			race = "true"
		}
	}
	n := 0
	version := func(kind string) string { n++; return fmt.Sprintf("%s-%d", kind, n) }
	cur, alive := "", false
	for i, a := range j.Steps {
		compiles := 1
		fresh := true
		switch {
		case i == 0:
			cur = version(strings.TrimPrefix(a, "start-"))
		case a == "good" || a == "bad" || a == "quit" || a == "none":
			cur = version(a)
		case a == "older":
			cur = version("good")
		case a == "touch":
		case a == "during":
			version("good")
			cur = version("good")
			compiles = 2
		case a == "during-bad":
			version("good")
			cur = version("bad")
			compiles = 2
		case a == "before":
			// seen by the compiler and, its time being newer, compiled once more
			version("bad")
			cur = version("good")
			compiles = 2
		case a == "die":
			alive, fresh, compiles = false, false, 0
		case a == "idle":
			fresh, compiles = false, 0
		}
		if fresh {
			alive = strings.HasPrefix(cur, "good-")
		}
		s := out[i]
		what := fmt.Sprintf("after %v", j.Steps[:i+1])
		if s.Overlap {
			k.Fatal("%s: two instances ran at the same time", what)
		}
		if compiles == 0 && len(s.Compiles) > 0 {
			k.Fatal("%s: compiled without a change: %v", what, s.Compiles)
		}
		if len(s.Compiles) > compiles {
			k.Fatal("%s: compiled %d times: %v", what, len(s.Compiles), s.Compiles)
		}
		if compiles > 0 {
			if len(s.Compiles) == 0 {
				k.Fatal("%s: not compiled", what)
			}
			l := strings.SplitN(s.Compiles[len(s.Compiles)-1], "|", 3)
			if l[0] != cur {
				k.Fatal("%s: the last version compiled is %s, not %s", what, l[0], cur)
			}
			if l[1] != dir || !strings.HasPrefix(l[2], "build ") || !strings.HasSuffix(l[2], " "+base) || strings.Contains(l[2], "-race=true") != (race == "true") && strings.Contains(l[2], "-race") {
				k.Fatal("%s: compiled by %q in %s", what, l[2], l[1])
			}
			if race == "true" && !strings.Contains(l[2], "-race") {
				k.Fatal("%s: compiled without race detector: %q", what, l[2])
			}
		}
		if !alive {
			if len(s.Running) != 0 {
				k.Fatal("%s: %v is running, should be none", what, s.Running)
			}
		} else if len(s.Running) != 1 || s.Running[0].Version != cur {
			k.Fatal("%s: running %v, should be %s", what, s.Running, cur)
		} else if s.Running[0].Args != args || s.Running[0].Dir != dir {
			k.Fatal("%s: running with arguments %q in %s, should be %q in %s", what, s.Running[0].Args, s.Running[0].Dir, args, dir)
		}
		k.Saw(a, len(s.Compiles), len(s.Running))
	}
}

func main() {
	mc.Main("A04", "exploration", "the real watcher runs, under a virtual clock, all histories of edits, touches and ends of the program up to the stated length; after each step what was compiled and what is running is compared with the history", func(r *mc.Run) {
		// Put in place before anything is forked: a file that is still open for
		// writing, in whatever process, cannot be executed.
		for b, renice := range map[string]string{"": "#!/bin/sh\nexit 0\n", "2": "#!/bin/sh\necho no such process >&2\nexit 1\n"} {
			bin := filepath.Join(os.Args[2], "bin"+b)
			os.MkdirAll(bin, 0777)
			for name, s := range map[string]string{"go": goScript, "renice": renice} {
				if err := os.WriteFile(filepath.Join(bin, name), []byte(s), 0777); err != nil {
					panic(err)
				}
			}
		}
		first := []string{"start-good", "start-bad", "start-quit", "start-none"}
		acts := []string{"good", "bad", "quit", "none", "older", "touch", "during", "during-bad", "before", "die", "idle"}
		n := r.Pick(3, 4)
		dims := []int{len(first)}
		for i := 0; i < n; i++ {
			dims = append(dims, len(acts))
		}
		r.Space("histories", dims, func(k *mc.K) {
			s := []string{first[k.Ix[0]]}
			for _, i := range k.Ix[1:] {
				s = append(s, acts[i])
			}
			check(k, job{File: "x.go", Flags: []string{"-i", "1s"}, Steps: s})
		})
		files := []string{"x.go", "./x.go", "sub/scene.go", "$DIR/abs.go", "$DIR/sub/abs.go", "v1.2.go"}
		args := [][]string{nil, {"-http", "x"}, {"a", "-o", "b.png"}}
		flags := [][]string{nil, {"-i", "5ms"}, {"-race"}, {"-i", "3s", "-race"}}
		r.Space("invocations", []int{len(files), len(args), len(flags), len(acts)}, func(k *mc.K) {
			check(k, job{File: files[k.Ix[0]], Args: args[k.Ix[1]], Flags: flags[k.Ix[2]], Steps: []string{"start-good", acts[k.Ix[3]], "good"}})
		})
		// where renice is not allowed, or comes too late
		r.Space("not reniced", []int{len(first), len(acts), len(acts)}, func(k *mc.K) {
			check(k, job{File: "x.go", Bin: "2", Steps: []string{first[k.Ix[0]], acts[k.Ix[1]], acts[k.Ix[2]]}})
		})
		r.Space("long", []int{len(acts), len(acts), r.Pick(6, 12)}, func(k *mc.K) {
			s := []string{"start-good"}
			for i := 0; i <= k.Ix[2]; i++ {
				s = append(s, acts[k.Ix[0]], acts[k.Ix[1]])
			}
			check(k, job{File: "x.go", Steps: s})
		})
	})
}
