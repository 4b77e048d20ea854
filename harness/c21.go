package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"
)

// C21: the commands do what the library does.

// cliSource is an argument of a command and what it stands for.
type cliSource struct {
	arg   string
	text  string // if readable
	bad   bool   // not readable
	stdin bool
	path  string // if a local file
	done  func() string
}

// cliSourceFor stores a text somewhere and names it.
func cliSourceFor(c *Case, dir, name, text string, stdinFree bool) cliSource {
	r := c.R
	put := func() string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, []byte(text), 0644); err != nil {
			c.Error("%v", err)
		}
		return f
	}
	n := r.IntN(100)
	switch {
	case n < 15 && stdinFree:
		return cliSource{arg: "-", text: text, stdin: true}
	case n < 45:
		f := put()
		return cliSource{arg: f, text: text, path: f}
	case n < 55:
		f := put()
		return cliSource{arg: name, text: text, path: f} // in the working directory
	case n < 70:
		f := put()
		return cliSource{arg: fileURL(r, "file", f), text: text, path: f}
	case n < 75:
		rep := filepath.Join(dir, "repo-"+name)
		os.MkdirAll(rep, 0755)
		gitRun(c, rep, "init", "-q")
		os.WriteFile(rep+"/s.sql", []byte(text), 0644)
		gitRun(c, rep, "add", "s.sql")
		gitRun(c, rep, "commit", "-q", "-m", "x")
		os.WriteFile(rep+"/s.sql", []byte("CREATE TABLE worktree (a INT);"), 0644)
		return cliSource{arg: gitURL(r, rep, "s.sql", "HEAD"), text: text}
	case n < 80:
		// a server whose only table has this text
		s, err := startFake("unix", filepath.Join(dir, "s"), []fakeTable{{"a", text}})
		if err != nil {
			c.Error("%v", err)
			return cliSource{arg: "/none", bad: true}
		}
		bad := chance(r, 30)
		if bad {
			s.fault = &fault{Kind: pick(r, []string{fErrPacket, fCutByte}), At: 2 + r.IntN(3), Down: true}
		}
		return cliSource{arg: "mysql://" + fakeDSN(s), text: text + ";", bad: bad, done: func() string {
			if left := s.stop(5 * time.Second); left > 0 {
				return fmt.Sprintf("%d connections left open", left)
			}
			return ""
		}}
	case n < 86:
		return cliSource{arg: pick(r, []string{filepath.Join(dir, "none"), dir, "http://example.com/x.sql", "file://remote/x", "/proc/self/mem", "mysql://root@unix(" + dir + "/none)/db", "local-git://" + dir + "?file=x&commitish=HEAD", "file:///%zz", ""}), bad: true}
	}
	f := put()
	return cliSource{arg: f, text: text, path: f}
}

type cliRun struct {
	args    []string
	stdin   string
	dir     string
	stdout  *os.File // instead of a pipe
	wrap    []string // a command that runs it
	slowOut bool
}

type cliResult struct {
	code           int
	stdout, stderr string
}

func runCLI(c *Case, bin string, x cliRun) (cliResult, bool) {
	argv := append(append([]string(nil), x.wrap...), filepath.Join(c.W.BinDir, bin))
	argv = append(argv, x.args...)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = x.dir
	cmd.Stdin = strings.NewReader(x.stdin)
	var out, eb bytes.Buffer
	cmd.Stderr = &eb
	switch {
	case x.stdout != nil:
		cmd.Stdout = x.stdout
	case x.slowOut:
		cmd.Stdout = slowWriter{&out}
	default:
		cmd.Stdout = &out
	}
	err := cmd.Run()
	c.Count("commands run")
	res := cliResult{stdout: out.String(), stderr: eb.String()}
	if ctx.Err() != nil {
		c.Fail("hang", "%s %q did not end", bin, x.args)
		return res, false
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.code = ee.ExitCode()
		if res.code == 0 {
			res.code = -1
		}
	} else if err != nil && !strings.Contains(err.Error(), "broken pipe") && !strings.Contains(err.Error(), "file already closed") {
		c.Error("%s: %v", bin, err)
		return res, false
	}
	return res, true
}

type slowWriter struct{ w io.Writer }

func (s slowWriter) Write(p []byte) (int, error) {
	time.Sleep(time.Millisecond)
	return s.w.Write(p)
}

// cliPair gives two schema texts, sometimes bad ones.
func cliPair(r *rand.Rand) (string, string) {
	from, to, _ := genPair(r, &GenCfg{Tables: 2, Cols: 4, Idx: 3})
	if chance(r, 5) {
		from, to, _ = bigPair(r, pick(r, bigPairGrid))
	}
	a, b := plainSQL(from), plainSQL(to)
	if chance(r, 6) {
		a = anyText(r)
	}
	if chance(r, 6) {
		b = anyText(r)
	}
	if chance(r, 4) { // more than a pipe holds
		var l []string
		for i := 0; i < 3000; i++ {
			l = append(l, fmt.Sprintf("CREATE TABLE big%d (a INT, b VARCHAR(10) NOT NULL);\n", i))
		}
		b = strings.Join(l, "")
	}
	if chance(r, 4) {
		a = ""
	}
	return a, b
}

// expect is what the library gives.
type expect struct {
	out string
	err error
}

func expectDiff(a, b cliSource, txn bool) expect {
	if a.bad || b.bad {
		return expect{err: errors.New("a source cannot be read")}
	}
	var buf bytes.Buffer
	err := diff.Strings(&buf, a.text, b.text, diff.WithTransaction(txn))
	if err != nil {
		return expect{err: err}
	}
	return expect{out: buf.String()}
}

func expectLint(a cliSource, n int) expect {
	if a.bad {
		return expect{err: errors.New("the source cannot be read")}
	}
	var buf bytes.Buffer
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(a.text)), &buf, lint.WithIndent(" ", n))
	if err != nil {
		return expect{err: err}
	}
	return expect{out: buf.String()}
}

// haveDevFull says whether /dev/full is what it should be.
func haveDevFull() bool {
	fi, err := os.Stat("/dev/full")
	return err == nil && fi.Mode()&os.ModeCharDevice != 0
}

// devFullLink makes a link to /dev/full in dir.
func devFullLink(c *Case, dir string) string {
	p := filepath.Join(dir, "full")
	os.Remove(p)
	if err := os.Symlink("/dev/full", p); err != nil {
		c.Error("%v", err)
	}
	return p
}

// judge compares one run with what the library gives, for one of several
// kinds of output.
func judgeCLI(c *Case, bin, dir string, opts, srcArgs []string, stdin string, want expect, srcs []cliSource) {
	r := c.R
	what := fmt.Sprintf("%s %q", bin, append(append([]string(nil), opts...), srcArgs...))
	c.Sample(what)
	mode := pick(r, []string{"stdout", "stdout", "stdout", "slow", "-o new", "-o new", "-o old", "-o old", "-o same", "-o relative", "/dev/full", "-o /dev/full", "-o missing dir", "-o directory", "file size limit", "stdout to file"})
	if strings.HasSuffix(mode, "/dev/full") && !haveDevFull() {
		c.Count("no /dev/full")
		mode = "stdout"
	}
	x := cliRun{stdin: stdin, dir: dir}
	outfile := ""
	old := ""
	unwritable := false
	switch mode {
	case "slow":
		x.slowOut = true
	case "-o new":
		outfile = filepath.Join(dir, oddName(r)+".out")
	case "-o relative":
		outfile = filepath.Join(dir, "rel.out")
	case "-o old":
		outfile = filepath.Join(dir, "old.out")
		old = strings.Repeat("old content\n", r.IntN(2000))
		os.WriteFile(outfile, []byte(old), 0644)
	case "-o same":
		for _, s := range srcs {
			if s.path != "" {
				outfile, old = s.path, s.text
			}
		}
		if outfile == "" {
			mode = "stdout"
		}
	case "/dev/full", "stdout to file":
		p := "/dev/full"
		if mode == "stdout to file" {
			p = filepath.Join(dir, "stdout.txt")
		} else {
			unwritable = true
		}
		flags := os.O_WRONLY
		if !unwritable {
			flags |= os.O_CREATE
		}
		f, err := os.OpenFile(p, flags, 0644)
		if err != nil {
			c.Error("%v", err)
			return
		}
		defer f.Close()
		x.stdout = f
	case "-o /dev/full":
		// by a link of our own: a command that replaces its output file must
		// not get at the device
		outfile, unwritable = devFullLink(c, dir), true
	case "-o missing dir":
		outfile, unwritable = filepath.Join(dir, "none", "x"), true
	case "-o directory":
		outfile, unwritable = dir, true
	case "file size limit":
		outfile = filepath.Join(dir, "limited.out")
		x.wrap = []string{"/bin/bash", "-c", `ulimit -c 0; ulimit -f 1; exec "$0" "$@"`}
		unwritable = len(want.out) > 1024
	}
	if outfile != "" {
		o := outfile
		if mode == "-o relative" {
			o = "rel.out"
		}
		opts = append(append([]string(nil), opts...), pick(r, [][]string{{"-o", o}, {"-o=" + o}, {"--o", o}})...)
	}
	x.args = append(append([]string(nil), opts...), srcArgs...)
	what = fmt.Sprintf("%s %q (%s)", bin, x.args, mode)
	res, ok := runCLI(c, bin, x)
	for _, s := range srcs {
		if s.done != nil {
			if l := s.done(); l != "" {
				c.Fail("leak", "%s: %s", what, l)
				return
			}
		}
	}
	if !ok {
		return
	}
	c.Feature(mode)
	got := res.stdout
	isFile := false
	switch {
	case mode == "stdout to file":
		b, err := os.ReadFile(filepath.Join(dir, "stdout.txt"))
		if err != nil {
			c.Error("%v", err)
			return
		}
		got = string(b)
	case outfile != "" && mode != "-o /dev/full" && outfile != dir && mode != "-o missing dir":
		isFile = true
		b, err := os.ReadFile(outfile)
		if err != nil && !os.IsNotExist(err) {
			c.Error("%v", err)
			return
		}
		got = string(b)
	}
	if want.err != nil {
		c.Count("failing commands")
		switch {
		case res.code == 0:
			c.Fail("exit", "%s: the library fails (%v), but the exit status is 0\nstdout %s", what, want.err, clip(res.stdout))
		case res.stderr == "":
			c.Fail("stderr", "%s: exit status %d, but nothing on standard error", what, res.code)
		case isFile && got != old:
			c.Fail("output", "%s: exit status %d, but the output file holds %s", what, res.code, clip(got))
		case res.stdout != "":
			c.Fail("output", "%s: exit status %d, but standard output has %s", what, res.code, clip(res.stdout))
		}
		return
	}
	if mode == "-o /dev/full" && res.code == 0 {
		if fi, err := os.Lstat(outfile); err == nil && fi.Mode().IsRegular() {
			// the link has been replaced by a file, which can be written
			if b, _ := os.ReadFile(outfile); string(b) == want.out && res.stdout == "" {
				c.Count("links replaced")
				return
			}
		}
	}
	if unwritable && (want.out != "" || strings.HasPrefix(mode, "-o ") && mode != "-o /dev/full") {
		c.Count("failing outputs")
		if res.code == 0 {
			c.Fail("exit", "%s: the output cannot be written, but the exit status is 0", what)
		} else if res.stderr == "" && mode != "file size limit" {
			c.Fail("stderr", "%s: exit status %d, but nothing on standard error", what, res.code)
		} else if res.stdout != "" {
			c.Fail("output", "%s: standard output has %s", what, clip(res.stdout))
		}
		return
	}
	if res.code != 0 {
		c.Fail("exit", "%s: exit status %d: %s", what, res.code, res.stderr)
		return
	}
	if outfile != "" && res.stdout != "" {
		c.Fail("output", "%s: standard output has %s", what, clip(res.stdout))
		return
	}
	if !unwritable && got != want.out {
		c.Fail("output", "%s: %s\n--- got\n%s\n--- want\n%s", what, firstDiff(got, want.out), clip(got), clip(want.out))
		return
	}
	c.Count("outputs compared")
	c.Max("bytes of output", len(want.out))
}

func newDir(c *Case) string {
	dir := filepath.Join(c.W.Scratch, "d")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Error("%v", err)
	}
	return dir
}

func init() {
	register(&Check{
		ID: "C21", Level: "exploration",
		Rule: "a case is one run of a built command with its arguments, sources and kind of output; distinct by inputs and arguments; non-trivial because exit status, both streams and the output file are compared with what the library gives",
		Assumptions: []string{
			"the usage text is not an output",
			"an output file that cannot be closed is not tested (no such file system here)",
		},
		Prepare: func(w *Worker) error {
			mysql.SetLogger(log.New(io.Discard, "", 0))
			for _, b := range []string{"schemalex", "schemadiff", "schemalint"} {
				if _, err := os.Stat(filepath.Join(w.BinDir, b)); err != nil {
					return err
				}
			}
			return nil
		},
		Phases: []Phase{
			{Name: "diff", Quick: 3000, Thorough: 40000, Run: func(c *Case) {
				r := c.R
				dir := newDir(c)
				a, b := cliPair(r)
				sa := cliSourceFor(c, dir, "a.sql", a, true)
				sb := cliSourceFor(c, dir, "b.sql", b, !sa.stdin)
				if sb.done != nil && sa.done != nil { // one socket
					sa.done()
					sa = cliSource{arg: "/none", bad: true}
				}
				if !sa.stdin && sa.done == nil && sb.done == nil && chance(r, 8) {
					b, sb = a, sa // one source twice
				}
				stdin := "CREATE TABLE not_asked_for (a INT);"
				if sa.stdin {
					stdin = a
				} else if sb.stdin {
					stdin = b
				}
				txn := true
				var opts []string
				switch r.IntN(8) {
				case 0, 1:
					opts, txn = []string{pick(r, []string{"-t=false", "-t=0", "--t=false", "-t=f"})}, false
				case 2:
					opts = []string{pick(r, []string{"-t", "-t=true", "-t=1"})}
				case 3:
					opts, txn = []string{"-t=true", "-t=false"}, false
				}
				want := expectDiff(sa, sb, txn)
				c.Input(a, b, fmt.Sprint(opts), sa.arg[:min(3, len(sa.arg))], sb.arg[:min(3, len(sb.arg))], fmt.Sprint(c.Index))
				judgeCLI(c, []string{"schemalex", "schemadiff"}[c.Index%2], dir, opts, []string{sa.arg, sb.arg}, stdin, want, []cliSource{sa, sb})
			}},
			{Name: "lint", Quick: 2000, Thorough: 30000, Run: func(c *Case) {
				r := c.R
				dir := newDir(c)
				a, _ := cliPair(r)
				sa := cliSourceFor(c, dir, "a.sql", a, true)
				stdin := "CREATE TABLE not_asked_for (a INT);"
				if sa.stdin {
					stdin = a
				}
				n := 2
				var opts []string
				if chance(r, 50) {
					n = pick(r, []int{0, 1, 2, 3, 4, 8, 40, -1, -5, 9, 17, 65, 101, 129, 300, 1100})
					opts = []string{fmt.Sprintf("-i=%d", n)}
					if chance(r, 50) {
						opts = []string{"-i", fmt.Sprint(n)}
					}
				}
				want := expectLint(sa, n)
				c.Input(a, fmt.Sprint(opts), sa.arg[:min(3, len(sa.arg))], fmt.Sprint(c.Index))
				judgeCLI(c, "schemalint", dir, opts, []string{sa.arg}, stdin, want, []cliSource{sa})
			}},
			{Name: "arguments", Quick: 300, Thorough: 2000, Run: func(c *Case) {
				// wrong arguments: an error, and no output
				r := c.R
				dir := newDir(c)
				f := filepath.Join(dir, "a.sql")
				os.WriteFile(f, []byte("CREATE TABLE nobody_asked (a INT);"), 0644)
				bin := []string{"schemalex", "schemadiff", "schemalint"}[c.Index%3]
				n := 2
				if bin == "schemalint" {
					n = 1
				}
				var args []string
				out := filepath.Join(dir, "out")
				if chance(r, 50) {
					args = append(args, "-o", out)
				}
				switch r.IntN(4) {
				case 0, 1:
					k := r.IntN(5)
					if k == n {
						k = n + 1
					}
					for i := 0; i < k; i++ {
						args = append(args, f)
					}
				case 2:
					args = append(args, pick(r, []string{"-nonsense", "-t=maybe", "-i=x", "--x=1", "-i=", "-i=1.5"}))
					for i := 0; i < n; i++ {
						args = append(args, f)
					}
				case 3: // options behind the arguments are arguments
					for i := 0; i < n; i++ {
						args = append(args, f)
					}
					args = append(args, pick(r, []string{"-t=false", "-i=3", "-o=x"}))
				}
				c.Input(bin, strings.Replace(strings.Join(args, " "), c.W.Scratch, "", -1))
				res, ok := runCLI(c, bin, cliRun{args: args, dir: dir})
				if !ok {
					return
				}
				_, err := os.Stat(out)
				if res.code == 0 || res.stderr == "" || strings.Contains(res.stdout, "nobody_asked") || err == nil {
					c.Fail("arguments", "%s %q: exit status %d, stdout %s, stderr %s, output file %v", bin, args, res.code, clip(res.stdout), clip(res.stderr), err == nil)
				}
				c.Count("wrong arguments judged")
			}},
			{Name: "broken-pipe", Quick: 30, Thorough: 300, Run: func(c *Case) {
				// the reader of standard output goes away
				r := c.R
				dir := newDir(c)
				var l []string
				for i := 0; i < 6000; i++ {
					l = append(l, fmt.Sprintf("CREATE TABLE big%d (a INT, b VARCHAR(10) NOT NULL);\n", i))
				}
				f := filepath.Join(dir, "a.sql")
				os.WriteFile(f, []byte(strings.Join(l, "")), 0644)
				e := filepath.Join(dir, "e.sql")
				os.WriteFile(e, nil, 0644)
				bin := []string{"schemalex", "schemadiff", "schemalint"}[c.Index%3]
				args := []string{e, f}
				if bin == "schemalint" {
					args = []string{f}
				}
				c.Input("broken-pipe", bin, fmt.Sprint(c.Index))
				pr, pw, err := os.Pipe()
				if err != nil {
					c.Error("%v", err)
					return
				}
				n := int64(r.IntN(20000))
				go func() {
					io.CopyN(io.Discard, pr, n)
					pr.Close()
				}()
				res, ok := runCLI(c, bin, cliRun{args: args, dir: dir, stdout: pw})
				pw.Close()
				if ok && res.code == 0 {
					c.Fail("exit", "%s %q: its output was read up to byte %d only, but the exit status is 0", bin, args, n)
				}
				c.Count("broken pipes")
			}},
			{Name: "version", Quick: 3, Thorough: 3, Run: func(c *Case) {
				bin := []string{"schemalex", "schemadiff", "schemalint"}[c.Index%3]
				c.Input(bin)
				res, ok := runCLI(c, bin, cliRun{args: []string{"-v"}, dir: newDir(c)})
				if ok && (res.code != 0 || !strings.Contains(res.stdout, bin)) {
					c.Fail("version", "%s -v: exit status %d, %q", bin, res.code, res.stdout)
				}
			}},
		},
	})
}
