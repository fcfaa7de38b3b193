package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

const repoDir = "/repo"

// paramsOverlay renames the four parameter getters of the params package and
// wraps them, so that a harness can run the real code at reduced dimensions.
func paramsOverlay(repo string) (map[string][]byte, error) {
	dir := filepath.Join(repo, "params")
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	want := map[string]string{"GetTLWELv0": "", "GetTLWELv1": "", "GetTRLWELv1": "", "GetTRGSWLv1": ""}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		path := filepath.Join(dir, e.Name())
		src, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		type edit struct {
			at  int
			txt string
		}
		var eds []edit
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if _, ok := want[fd.Name.Name]; ok && fd.Type.Results != nil && len(fd.Type.Results.List) == 1 && len(fd.Type.Params.List) == 0 {
				var b bytes.Buffer
				format.Node(&b, fs, fd.Type.Results.List[0].Type)
				want[fd.Name.Name] = b.String()
				eds = append(eds, edit{fs.Position(fd.Name.Pos()).Offset, "verifOrig"})
			}
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
		s := string(src)
		for _, e := range eds {
			s = s[:e.at] + e.txt + s[e.at:]
		}
		if len(eds) > 0 {
			out[path] = []byte(s)
		}
	}
	for k, v := range want {
		if v == "" {
			return nil, fmt.Errorf("params.%s not found", k)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, `package params

// VerifDims overrides the dimensions of the current security level (0: keep).
type VerifDims struct {
	N0, N1, Nbit    int
	L, Bgbit        int
	Basebit, T      int
	Block           int
	Alpha0, Alpha1  float64
}

var verifDims VerifDims

// VerifSet installs an override.
func VerifSet(d VerifDims) { verifDims = d }

func GetTLWELv0() %[1]s {
	p := verifOrigGetTLWELv0()
	if verifDims.N0 != 0 {
		p.N = verifDims.N0
	}
	if verifDims.Alpha0 != 0 {
		p.ALPHA = verifDims.Alpha0
	}
	return p
}

func GetTLWELv1() %[2]s {
	p := verifOrigGetTLWELv1()
	if verifDims.N1 != 0 {
		p.N = verifDims.N1
	}
	if verifDims.Alpha1 != 0 {
		p.ALPHA = verifDims.Alpha1
	}
	return p
}

func GetTRLWELv1() %[3]s {
	p := verifOrigGetTRLWELv1()
	if verifDims.N1 != 0 {
		p.N = verifDims.N1
	}
	if verifDims.Alpha1 != 0 {
		p.ALPHA = verifDims.Alpha1
	}
	return p
}

func GetTRGSWLv1() %[4]s {
	p := verifOrigGetTRGSWLv1()
	if verifDims.N1 != 0 {
		p.N = verifDims.N1
		p.NBIT = verifDims.Nbit
	}
	if verifDims.L != 0 {
		p.L = verifDims.L
	}
	if verifDims.Bgbit != 0 {
		p.BGBIT = uint32(verifDims.Bgbit)
		p.BG = 1 << uint(verifDims.Bgbit)
	}
	if verifDims.Basebit != 0 {
		p.BASEBIT = verifDims.Basebit
	}
	if verifDims.T != 0 {
		p.IKS_T = verifDims.T
	}
	if verifDims.Block != 0 {
		p.BlockSize = verifDims.Block
	}
	if verifDims.Alpha1 != 0 {
		p.ALPHA = verifDims.Alpha1
	}
	return p
}
`, want["GetTLWELv0"], want["GetTLWELv1"], want["GetTRLWELv1"], want["GetTRGSWLv1"])
	out[filepath.Join(dir, "zz_verif.go")] = b.Bytes()
	return out, nil
}

// randOverlay inserts a hook in the random generators of the standard library
// so that recorded draws can be replayed (native builds only).
func randOverlay(goroot string) (map[string][]byte, error) {
	out := map[string][]byte{}
	hook := map[string]string{"Int63": "Int63", "Uint32": "Uint32", "Uint64": "Uint64", "Int31": "Int31", "Int": "Int", "Int63n": "Intn", "Int31n": "Intn", "Intn": "Intn", "Float64": "Float64", "NormFloat64": "NormFloat64",
		"Int64": "Int63", "Int32": "Int31", "IntN": "Intn", "Int64N": "Intn", "Int32N": "Intn", "Uint32N": "Intn", "Uint64N": "Intn", "UintN": "Intn"}
	do := func(path, hv string) error {
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			return err
		}
		type edit struct {
			at  int
			txt string
		}
		var eds []edit
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "NewSource" {
				eds = append(eds, edit{fs.Position(fd.Body.Lbrace).Offset + 1, " if VerifSeed != nil { VerifSeed(" + fd.Type.Params.List[0].Names[0].Name + ") };"})
				continue
			}
			k, ok := hook[fd.Name.Name]
			if !ok {
				continue
			}
			if fd.Recv != nil {
				st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
				if !ok {
					continue
				}
				if id, ok := st.X.(*ast.Ident); !ok || id.Name != "Rand" {
					continue
				}
			}
			arg := "0"
			if k == "Intn" {
				arg = "int64(" + fd.Type.Params.List[0].Names[0].Name + ")"
			}
			var rt bytes.Buffer
			format.Node(&rt, fs, fd.Type.Results.List[0].Type)
			res := rt.String() + "(v)"
			if rt.String() == "float64" {
				res = "f"
			}
			_ = hv
			eds = append(eds, edit{fs.Position(fd.Body.Lbrace).Offset + 1, fmt.Sprintf(" if VerifHook != nil { if v, f, ok := VerifHook(%q, %s); ok { _, _ = v, f; return %s } };", k, arg, res)})
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
		s := string(src)
		for _, e := range eds {
			s = s[:e.at] + e.txt + s[e.at:]
		}
		out[path] = []byte(s)
		return nil
	}
	for _, f := range []string{"rand.go", "normal.go"} {
		if err := do(filepath.Join(goroot, "src/math/rand", f), ""); err != nil {
			return nil, err
		}
	}
	out[filepath.Join(goroot, "src/math/rand/zz_verif.go")] = []byte("package rand\n\nvar VerifHook func(kind string, n int64) (int64, float64, bool)\n\nvar VerifSeed func(seed int64)\n")
	return out, nil
}

func harnessNames(dir string) ([]string, error) {
	var names []string
	ents, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, p := range ents {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && len(fd.Name.Name) > 4 && fd.Name.Name[0] == 'C' && fd.Name.Name[3] == '_' && len(fd.Type.Params.List) == 0 {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	return names, nil
}

type Native struct {
	dir     string // scratch directory
	harness string
	mu      sync.Mutex
	bin     map[bool]string
	berr    map[bool]error
	nfile   int
	saveDir string
	id      string
	overlay string
	sem     chan struct{}
}

type nativeRes struct {
	status, label, out string
	obs                []uint64
	file               string
}

func newNative(scratch, harness, saveDir, id string, ov map[string][]byte) (*Native, error) {
	n := &Native{dir: scratch, harness: harness, bin: map[bool]string{}, berr: map[bool]error{}, saveDir: saveDir, id: id, sem: make(chan struct{}, 8)}
	goroot := runtime.GOROOT()
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(out))
	}
	ro, err := randOverlay(goroot)
	if err != nil {
		return nil, err
	}
	names, err := harnessNames(harness)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport h \"verifharness\"\n\nfunc init() {\n")
	for _, nm := range names {
		fmt.Fprintf(&b, "\tregistry[%q] = h.%s\n", nm, nm)
	}
	b.WriteString("}\n")
	all := map[string][]byte{filepath.Join(harness, "cmd/replay/zz_registry.go"): b.Bytes()}
	for k, v := range ro {
		all[k] = v
	}
	for k, v := range ov {
		all[k] = v
	}
	rep := map[string]string{}
	i := 0
	for k, v := range all {
		i++
		p := filepath.Join(scratch, fmt.Sprintf("ov%d.go", i))
		if err := os.WriteFile(p, v, 0o644); err != nil {
			return nil, err
		}
		rep[k] = p
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	n.overlay = filepath.Join(scratch, "overlay.json")
	return n, os.WriteFile(n.overlay, j, 0o644)
}

func (n *Native) build(race bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bin[race]; ok {
		return b, n.berr[race]
	}
	out := filepath.Join(n.dir, "replay")
	args := []string{"build", "-mod=mod", "-overlay", n.overlay}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, "./cmd/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.harness
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	o, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("native build: %v\n%s", err, o)
	}
	n.bin[race], n.berr[race] = out, err
	return out, err
}

type replayFile struct {
	Property string     `json:"property"`
	Harness  string     `json:"harness"`
	Label    string     `json:"label,omitempty"`
	Tier     string     `json:"tier"`
	Extra    []string   `json:"extra,omitempty"`
	Env      []string   `json:"env,omitempty"`
	Repeat   int        `json:"repeat,omitempty"`
	Race     bool       `json:"race,omitempty"`
	Procs    int        `json:"procs,omitempty"` // the machine has so many processors
	Inputs   []InputRec `json:"inputs"`
	Result   string     `json:"result,omitempty"`
}

func (n *Native) runFile(path string, rf *replayFile) nativeRes {
	n.sem <- struct{}{}
	defer func() { <-n.sem }()
	bin, err := n.build(rf.Race)
	if err != nil {
		return nativeRes{status: "error", out: err.Error()}
	}
	rep := rf.Repeat
	if rep < 1 {
		rep = 1
	}
	var last nativeRes
	for i := 0; i < rep; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
		args := append([]string{bin, rf.Harness, path}, rf.Extra...)
		if rf.Procs > 0 {
			args = onCPUs(rf.Procs, args)
		}
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		env := append(os.Environ(), "VERIF_TIER="+rf.Tier)
		if rf.Procs > 0 && len(rf.Env) < 2 {
			env = append(env, fmt.Sprintf("GOMAXPROCS=%d", rf.Procs))
		} else if len(rf.Env) > 0 {
			env = append(env, rf.Env[i%len(rf.Env)])
		} else {
			env = append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1")
		}
		if rf.Race {
			env = append(env, "GORACE=halt_on_error=1 exitcode=66")
		}
		cmd.Env = env
		out, err := cmd.CombinedOutput()
		cancel()
		last = parseNative(out, err, rf.Race)
		if last.status == "assert" || last.status == "panic" {
			if rf.Env != nil {
				rf.Env = []string{rf.Env[i%len(rf.Env)]}
			}
			return last
		}
	}
	return last
}

// onCPUs restricts a command to n processors where that is possible.
func onCPUs(n int, args []string) []string {
	b, _ := os.ReadFile("/proc/self/status")
	var cpus []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "Cpus_allowed_list:") {
			continue
		}
		for _, p := range strings.Split(strings.TrimSpace(l[len("Cpus_allowed_list:"):]), ",") {
			lo, hi := 0, 0
			if k, _ := fmt.Sscanf(p, "%d-%d", &lo, &hi); k == 1 {
				hi = lo
			}
			for ; lo <= hi && len(cpus) < n; lo++ {
				cpus = append(cpus, fmt.Sprint(lo))
			}
		}
	}
	t, err := exec.LookPath("taskset")
	if err != nil || len(cpus) == 0 {
		return args
	}
	return append([]string{t, "-c", strings.Join(cpus, ",")}, args...)
}

func parseNative(out []byte, err error, race bool) nativeRes {
	s := string(out)
	if race && strings.Contains(s, "WARNING: DATA RACE") {
		return nativeRes{status: "assert", label: "race", out: firstLines(s, 12)}
	}
	i := strings.LastIndex(s, "VERIF-RESULT ")
	if i < 0 {
		if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
			k := strings.Index(s, "panic:")
			if k < 0 {
				k = strings.Index(s, "fatal error:")
			}
			return nativeRes{status: "panic", label: "panic", out: firstLines(s[k:], 3)}
		}
		return nativeRes{status: "error", out: firstLines(s, 5) + fmt.Sprint(err)}
	}
	line := s[i+len("VERIF-RESULT "):]
	if j := strings.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	var r struct {
		Status, Label, Out string
		Obs                []uint64
	}
	if e := json.Unmarshal([]byte(line), &r); e != nil {
		return nativeRes{status: "error", out: e.Error()}
	}
	return nativeRes{status: r.Status, label: r.Label, out: r.Out, obs: r.Obs}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (n *Native) exec(h *HarnessRun, rf *replayFile) nativeRes {
	n.mu.Lock()
	n.nfile++
	k := n.nfile
	n.mu.Unlock()
	rf.Property, rf.Harness, rf.Tier = n.id, h.name, h.ck.tier
	ins := rf.Inputs
	rf.Inputs = nil
	if baseProcs.Load() {
		rf.Procs = 3
	}
	for _, in := range ins {
		if in.K == "procs" {
			rf.Procs = int(in.V)
		} else {
			rf.Inputs = append(rf.Inputs, in)
		}
	}
	path := filepath.Join(n.dir, fmt.Sprintf("in%d.json", k))
	b, _ := json.Marshal(rf)
	os.WriteFile(path, b, 0o644)
	res := n.runFile(path, rf)
	os.Remove(path)
	if res.status == "assert" || res.status == "panic" {
		os.MkdirAll(n.saveDir, 0o755)
		rf.Result = res.status + " " + res.label + " " + res.out
		if rf.Label == "" {
			rf.Label = res.label
		}
		res.file = filepath.Join(n.saveDir, fmt.Sprintf("%s-%s-%d.json", n.id, h.name, k))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(res.file, b, 0o644)
	}
	return res
}

func (n *Native) replay(h *HarnessRun, ins []InputRec, repeat int, env string) nativeRes {
	return n.exec(h, &replayFile{Inputs: ins})
}

// confirm replays a counterexample; for schedule-dependent ones many runs are
// tried under different processor counts.
func (n *Native) confirm(h *HarnessRun, ins []InputRec, label string, explored bool) (bool, string, string) {
	bad := func(r nativeRes) bool { return r.status == "assert" || r.status == "panic" }
	if label == "race" {
		r := n.exec(h, &replayFile{Inputs: ins, Label: label, Race: true, Repeat: 12, Env: []string{"GOMAXPROCS=8", "GOMAXPROCS=2", "GOMAXPROCS=4"}})
		return bad(r), r.status + " " + r.label + " " + r.out, r.file
	}
	r := n.exec(h, &replayFile{Inputs: ins, Label: label})
	if bad(r) {
		return true, r.status + " " + r.label + " " + r.out, r.file
	}
	if explored {
		r = n.exec(h, &replayFile{Inputs: ins, Label: label, Repeat: 60, Env: []string{"GOMAXPROCS=8", "GOMAXPROCS=1", "GOMAXPROCS=2", "GOMAXPROCS=3"}})
		if bad(r) {
			return true, r.status + " " + r.label + " " + r.out, r.file
		}
	}
	return false, r.status + " " + r.label + " " + r.out, ""
}

func (n *Native) confirmCover(h *HarnessRun, ins []InputRec, label string) (bool, string, string) {
	r := n.exec(h, &replayFile{Inputs: ins, Label: label, Extra: []string{"sample", label, "1200"}})
	return r.status == "assert" || r.status == "panic", r.status + " " + r.out, r.file
}

func (n *Native) confirmCan(h *HarnessRun, label string) (bool, string, string) {
	r := n.exec(h, &replayFile{Label: label, Extra: []string{"canhold", label, "3000"}})
	return r.status == "assert" || r.status == "panic", r.status + " " + r.out, r.file
}
