// Command vctl builds the simulator from the working tree of asn1go and runs checks in it.
//
//	vctl check ID quick|thorough
//	vctl replay FILE
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var scratch string

func cleanup() {
	if scratch != "" && os.Getenv("ASN1SIM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vctl: "+format+"\n", args...)
	cleanup()
	os.Exit(3)
}

func goCmd(dir string, extra []string, args ...string) *exec.Cmd {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "GOSUMDB=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod")
	cmd.Env = append(cmd.Env, extra...)
	return cmd
}

func sha(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))
}

// grammar mirrors /opt/vp/common.sh: an edited asn1.y with an untouched y.go is regenerated.
func grammar(repo, dir string) map[string]string {
	base := func(n string) string {
		b, err := os.ReadFile("/opt/vp/base/" + n + ".sha256")
		if err != nil {
			return ""
		}
		f := strings.Fields(string(b))
		if len(f) == 0 {
			return ""
		}
		return f[0]
	}
	y, yg := sha(filepath.Join(repo, "asn1.y")), sha(filepath.Join(repo, "y.go"))
	if y == "" || yg == "" || base("asn1.y") == "" || y == base("asn1.y") || yg != base("y.go") {
		return nil
	}
	out := filepath.Join(dir, "y.go.new")
	cmd := exec.Command("/opt/vp/bin/goyacc", "-o", out, "-v", filepath.Join(dir, "y.output"), filepath.Join(repo, "asn1.y"))
	if b, err := cmd.CombinedOutput(); err != nil {
		die("goyacc: %v\n%s", err, b)
	}
	return map[string]string{"y.go": out}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vctl check ID quick|thorough | vctl replay FILE | vctl build ID DIR")
		os.Exit(3)
	}
	home := env("ASN1SIM_HOME", "/verif")
	repo := env("ASN1SIM_REPO", "/repo")
	var id string
	var replay string
	tier := "quick"
	switch os.Args[1] {
	case "check":
		id = os.Args[2]
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
	case "build":
		id = os.Args[2]
	case "replay":
		replay, _ = filepath.Abs(os.Args[2])
		b, err := os.ReadFile(replay)
		if err != nil {
			die("%v", err)
		}
		var r struct{ Property string }
		if err := json.Unmarshal(b, &r); err != nil {
			die("%v", err)
		}
		id = r.Property
	default:
		die("unknown command %q", os.Args[1])
	}
	started := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "asn1sim-")
	if err != nil {
		die("%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sig
		cleanup()
		os.Exit(3)
	}()
	defer cleanup()

	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	gorootB, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	goroot := strings.TrimSpace(string(gorootB))
	ovdir := filepath.Join(scratch, "overlay")
	os.MkdirAll(ovdir, 0o755)
	overlay, err := writeOverlay(goroot, ovdir)
	if err != nil {
		die("overlay: %v", err)
	}
	repl := grammar(repo, scratch)
	race := id == "C09" || id == "C23"
	build := func(plain bool) (*treeInfo, error) {
		src := filepath.Join(scratch, "src")
		os.RemoveAll(src)
		info, err := copyTree(repo, src, repl, plain)
		if err != nil {
			return nil, err
		}
		if info.HasGo && !plain {
			return nil, fmt.Errorf("the sources start goroutines of their own")
		}
		mod := "module asn1harness\n\ngo 1.21\n\nrequire (\n\tasn1sim v0.0.0\n\tgithub.com/chemikadze/asn1go v0.0.0\n)\n\n" +
			"replace asn1sim => " + filepath.Join(home, "sim/rt") + "\n\nreplace github.com/chemikadze/asn1go => " + src + "\n"
		modfile := filepath.Join(scratch, "harness.mod")
		if err := os.WriteFile(modfile, []byte(mod), 0o644); err != nil {
			return nil, err
		}
		args := []string{"build", "-trimpath", "-modfile=" + modfile, "-overlay=" + overlay}
		if race {
			args = append(args, "-race")
		}
		if os.Getenv("ASN1SIM_COVER") != "" { // to see what the runs reach; with ASN1SIM_KEEP and GOCOVERDIR
			args = append(args, "-cover", "-coverpkg=asn1harness,github.com/chemikadze/asn1go/...")
		}
		run := func(out string, pkg string) error {
			a := append(append([]string{}, args...), "-o", filepath.Join(scratch, out), pkg)
			cmd := goCmd(filepath.Join(home, "sim/harness"), nil, a...)
			if b, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("build of %s failed: %v\n%s", pkg, err, b)
			}
			return nil
		}
		if err := run("harness", "."); err != nil {
			return nil, err
		}
		switch id {
		case "C11", "C12", "C13", "C14", "C21", "C22", "C24":
			err = run("cli-asn1go", "github.com/chemikadze/asn1go/cmd/asn1go")
		case "C17":
			err = run("cli-ws2bin", "github.com/chemikadze/asn1go/cmd/ws2bin")
		}
		return info, err
	}
	info, err := build(false)
	if err != nil {
		fmt.Fprintf(os.Stderr, "vctl: no statement-level seams: %v\n", err)
		info, err = build(true)
		if err != nil {
			die("%v", err)
		}
	}
	if os.Args[1] == "build" {
		fmt.Println(scratch)
		os.Exit(0)
	}
	args := []string{"-scratch", scratch, "-home", home, "-out", env("ASN1SIM_OUT", home), "-mode", info.Mode,
		"-points", fmt.Sprint(info.Points), "-built", fmt.Sprintf("%.1f", time.Since(started).Seconds())}
	if replay != "" {
		args = append(args, "-replay", replay)
	} else {
		args = append(args, "-check", id, "-tier", tier)
	}
	cmd := exec.Command(filepath.Join(scratch, "harness"), args...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.Dir = home
	err = cmd.Run()
	cleanup()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
			os.Exit(1)
		}
		fmt.Fprintf(os.Stderr, "vctl: harness: %v\n", err)
		os.Exit(3)
	}
}
