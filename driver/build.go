package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// builder prepares the overlay and builds simulation binaries.
type builder struct {
	verif, repo, dir string
	goroot           string
	points           int
	files            int
	plain            []string // files that could not be instrumented
}

func newBuilder(verif, repo, dir string) (*builder, error) {
	b := &builder{verif: verif, repo: repo, dir: dir}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %v", err)
	}
	b.goroot = strings.TrimSpace(string(out))
	return b, nil
}

// build compiles the simulator with the harness files of the given levels.
func (b *builder) build(levels []string, race bool, name string) (string, error) {
	ov := &overlayFile{Replace: map[string]string{}}
	if err := stdOverlay(b.goroot, b.verif, b.dir, ov); err != nil {
		return "", err
	}
	files, err := repoFiles(b.repo)
	if err != nil {
		return "", err
	}
	b.points, b.files, b.plain = 0, 0, nil
	for _, f := range files {
		rel, _ := filepath.Rel(b.repo, f)
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		dst := filepath.Join(b.dir, "vsimrepo", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return "", err
		}
		out, n, err := instrument(f, src, "")
		if err == nil {
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return "", err
			}
			ov.add(f, dst)
			b.points += n
			b.files++
		} else {
			b.plain = append(b.plain, rel)
		}
		if filepath.Dir(rel) == "." { // package main, made importable
			out, _, err := instrument(f, src, "zzproxy")
			if err != nil {
				return "", fmt.Errorf("%s: %v", rel, err)
			}
			dst := filepath.Join(b.dir, "vsimrepo", "zzproxy", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return "", err
			}
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return "", err
			}
			ov.add(filepath.Join(b.repo, "zzproxy", rel), dst)
		}
	}
	for _, l := range levels {
		ov.add(filepath.Join(b.repo, "zzsim", l), filepath.Join(b.verif, "sim", l))
	}
	for _, m := range []string{"go.mod", "go.sum"} {
		src, err := os.ReadFile(filepath.Join(b.repo, m))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(b.dir, m), src, 0o644); err != nil {
			return "", err
		}
	}
	if err := patchModules(b.repo, b.dir); err != nil {
		return "", err
	}
	ovPath := filepath.Join(b.dir, "overlay.json")
	if err := ov.write(ovPath); err != nil {
		return "", err
	}
	bin := filepath.Join(b.dir, "sim-"+name)
	args := []string{"build", "-modfile", filepath.Join(b.dir, "go.mod"), "-overlay", ovPath, "-o", bin}
	if race {
		// The harness itself is left out: it relies on the simulated scheduler.
		args = append(args, "-race", "-gcflags=github.com/flawedmatrix/gocryptsftp/zzsim=-race=false")
	}
	args = append(args, "./zzsim")
	cmd := exec.Command("go", args...)
	cmd.Dir = b.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}
