package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/pkg/modulecodegen"
	_ "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"google.golang.org/protobuf/cmd/protoc-gen-go/internal_gengo"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// C26: the client code generator.

const modPath = "github.com/fdymylja/tmos"

type genObj struct {
	name      string
	singleton bool
	pk        string
	sk        []string
}

type genPkg struct {
	file   *descriptorpb.FileDescriptorProto
	imp    string // Go import path
	goName string
	objs   []genObj
	trs    []string
}

var genMsgNames = []string{"Account", "Status", "Box", "Address", "Type", "Map", "Func", "Package", "Interface", "Opts", "X", "Meta", "Client", "Iter", "Error", "Nil", "New", "String", "lower_case", "snakeName", "ABC", "A", "S", "Range", "Default", "Schema", "Object", "Go", "Msg", "Ids", "Select", "Var", "Err", "Return", "Len", "Any2", "K8S", "Data", "Vote_Record", "Case"}
var genKeyNames = []string{"id", "address", "the_key", "Key", "type", "range", "func", "opts", "x", "meta", "client", "new", "nil", "string", "error", "iter", "len", "map", "default", "schema", "var", "err", "true", "key_2", "obj", "go"}

// genSchemaFile draws an annotated proto file.
func genSchemaFile(r *rand.Rand, dir string, i int, goodNames bool) *genPkg {
	g := &genPkg{goName: fmt.Sprintf("p%d", i)}
	if chance(r, .2) {
		g.goName = pick(r, "meta", "client", "schema", "v1", "types")
	}
	g.imp = fmt.Sprintf("%s/%s/d%d/%s", modPath, dir, i, g.goName)
	pkg := fmt.Sprintf("%s.d%d", strings.ReplaceAll(dir, "_", ""), i) + pick(r, "", ".v1", ".x.y")
	g.file = &descriptorpb.FileDescriptorProto{Name: proto.String(fmt.Sprintf("%s/d%d/%s/f.proto", dir, i, g.goName)), Package: proto.String(pkg), Syntax: proto.String("proto3"),
		Dependency: []string{"core/modulegen/modulegen.proto", "google/protobuf/any.proto"},
		Options:    &descriptorpb.FileOptions{GoPackage: proto.String(g.imp)}}
	names := append([]string{}, genMsgNames...)
	if goodNames {
		names = names[:4]
	}
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	used := map[string]bool{"ClientSet": true, "clientSet": true, "NewClientSet": true}
	n := 1 + r.Intn(5)
	manyTr := chance(r, .25) // mostly transitions
	if manyTr {
		n += 5
	}
	annotated := false
	for len(g.file.MessageType) < n && len(names) > 0 || !annotated && len(names) > 0 {
		nm := names[0]
		names = names[1:]
		goName := camel(nm)
		lower := strings.ToLower(goName[:1]) + goName[1:]
		kind := r.Intn(8)
		if manyTr && chance(r, .7) {
			kind = 6
		}
		singleton := kind < 2
		// what the generator defines for this message
		defs := []string{goName}
		methods := []string{}
		switch {
		case kind < 6:
			defs = append(defs, goName+"Client", goName+"Iterator", goName+"Schema", lower+"Client", lower+"Iterator")
			m := goName
			if !singleton && !strings.HasSuffix(goName, "s") {
				m += "s"
			}
			methods = append(methods, "method "+m)
		case kind == 6:
			methods = append(methods, "method Exec"+goName)
		}
		clash := false
		for _, d := range append(defs, methods...) {
			clash = clash || used[d]
		}
		if clash {
			continue
		}
		for _, d := range append(defs, methods...) {
			used[d] = true
		}
		m := DynMsg{Name: nm}
		keys := append([]string{}, genKeyNames...)
		if goodNames {
			keys = keys[:4]
		}
		r.Shuffle(len(keys), func(a, b int) { keys[a], keys[b] = keys[b], keys[a] })
		m.Fields = []DynField{{Name: "plain", Type: tString}, {Name: "many", Type: tString, Repeated: true}, {Name: "wrapped", Type: tMsg, TypeName: ".google.protobuf.Any"}}
		opt := &descriptorpb.MessageOptions{}
		switch {
		case kind < 6:
			annotated = true
			o := genObj{name: nm, singleton: singleton}
			if !singleton {
				f := DynField{Name: keys[0], Type: c27Good[(i+len(g.file.MessageType)+r.Intn(2))%len(c27Good)]}
				m.Fields = append(m.Fields, f)
				o.pk = jsonCamel(f.Name)
				for q := r.Intn(4); q > 0; q-- {
					f := DynField{Name: keys[q], Type: c27Good[r.Intn(len(c27Good))]}
					m.Fields = append(m.Fields, f)
					o.sk = append(o.sk, jsonCamel(f.Name))
				}
			}
			proto.SetExtension(opt, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{Singleton: singleton, PrimaryKey: o.pk, SecondaryKeys: o.sk})
			g.objs = append(g.objs, o)
		case kind == 6:
			annotated = true
			proto.SetExtension(opt, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
			g.trs = append(g.trs, nm)
		}
		r.Shuffle(len(m.Fields), func(a, b int) { m.Fields[a], m.Fields[b] = m.Fields[b], m.Fields[a] })
		d := dynMsgProto(m)
		if kind != 7 {
			d.Options = opt
		}
		g.file.MessageType = append(g.file.MessageType, d)
	}
	return g
}

// camel is the Go name of a proto name, jsonCamel its JSON name.
func camel(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z':
		case c >= 'a' && c <= 'z' && (i == 0 || s[i-1] == '_'):
			b = append(b, c-32)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

func jsonCamel(s string) string {
	var b []byte
	up := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

func genRequest(files []*descriptorpb.FileDescriptorProto, gen []string) *pluginpb.CodeGeneratorRequest {
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: gen}
	seen := map[string]bool{}
	var addReal func(p string)
	addReal = func(p string) {
		if seen[p] {
			return
		}
		fd, err := protoregistry.GlobalFiles.FindFileByPath(p)
		if err != nil {
			return
		}
		seen[p] = true
		for i := 0; i < fd.Imports().Len(); i++ {
			addReal(fd.Imports().Get(i).Path())
		}
		x := protodesc.ToFileDescriptorProto(fd)
		if x.GetOptions().GetGoPackage() == "" {
			x.Options = &descriptorpb.FileOptions{GoPackage: proto.String("example.com/nopkg")}
		}
		req.ProtoFile = append(req.ProtoFile, x)
	}
	for _, f := range files {
		for _, d := range f.Dependency {
			addReal(d)
		}
	}
	for _, f := range files {
		if !seen[f.GetName()] {
			seen[f.GetName()] = true
			req.ProtoFile = append(req.ProtoFile, proto.Clone(f).(*descriptorpb.FileDescriptorProto))
		}
	}
	return req
}

// runGenerator runs the generator in process; nil if it does not return.
func runGenerator(req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error) {
	type res struct {
		r   *pluginpb.CodeGeneratorResponse
		err error
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- res{nil, fmt.Errorf("panic: %v", p)}
			}
		}()
		p, err := protogen.Options{}.New(proto.Clone(req).(*pluginpb.CodeGeneratorRequest))
		if err != nil {
			ch <- res{nil, err}
			return
		}
		if err := modulecodegen.PluginRunner(p); err != nil {
			p.Error(err)
		}
		ch <- res{p.Response(), nil}
	}()
	select {
	case x := <-ch:
		return x.r, x.err
	case <-time.After(60 * time.Second):
		return nil, fmt.Errorf("does not terminate")
	}
}

func pbCode(req *pluginpb.CodeGeneratorRequest) (map[string]string, error) {
	p, err := protogen.Options{}.New(proto.Clone(req).(*pluginpb.CodeGeneratorRequest))
	if err != nil {
		return nil, err
	}
	for _, f := range p.Files {
		if f.Generate {
			internal_gengo.GenerateFile(p, f)
		}
	}
	r := p.Response()
	if r.Error != nil {
		return nil, fmt.Errorf("%s", *r.Error)
	}
	out := map[string]string{}
	for _, f := range r.File {
		out[f.GetName()] = f.GetContent()
	}
	return out, nil
}

// c26generate: determinism, termination and what is generated, on many
// schemas; several files in one run, some only imported.
func c26generate(c *Ctx) {
	c.Cases("generate", c.N(400, 8000), func(k *Case) {
		r := k.R
		var files []*descriptorpb.FileDescriptorProto
		var pk []*genPkg
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			g := genSchemaFile(r, "zz_gen", i, false)
			if i > 0 && chance(r, .5) {
				g.file.Dependency = append(g.file.Dependency, files[r.Intn(i)].GetName())
			}
			files = append(files, g.file)
			pk = append(pk, g)
		}
		var gen []string
		want := map[string]*genPkg{}
		for i, g := range pk {
			if i == n-1 || chance(r, .6) {
				gen = append(gen, g.file.GetName())
				if len(g.objs)+len(g.trs) > 0 {
					want[strings.TrimSuffix(g.imp+"/f.proto", ".proto")+".starport.go"] = g
				}
			}
		}
		req := genRequest(files, gen)
		var first *pluginpb.CodeGeneratorResponse
		for i := 0; i < 4; i++ {
			res, err := runGenerator(req)
			if err != nil {
				k.FailData("generator", gen, "the generator fails on a valid schema: %v", err)
				return
			}
			if res.Error != nil {
				k.FailData("generator", files, "the generator refuses a valid schema: %s", *res.Error)
				return
			}
			if first == nil {
				first = res
			} else if !proto.Equal(first, res) {
				k.Fail("determinism", "two runs on the same request differ")
				return
			}
			c.Count("runs", 1)
		}
		for _, f := range first.File {
			g := want[f.GetName()]
			if g == nil {
				k.Fail("files", "file %s is generated, which was not asked for", f.GetName())
				return
			}
			delete(want, f.GetName())
			af, err := parser.ParseFile(token.NewFileSet(), f.GetName(), f.GetContent(), 0)
			if err != nil {
				k.Fail("compile", "generated code does not parse: %v", err)
				return
			}
			if af.Name.Name != g.goName {
				k.Fail("files", "generated package is named %s instead of %s", af.Name.Name, g.goName)
			}
			c.Count("files_generated", 1)
		}
		for f := range want {
			k.Fail("files", "no code is generated for %s", f)
		}
		c.Eval(fmt.Sprintf("%d:%d:%s", n, len(gen), c26shape(pk)))
	})
	c.Expect("files_generated", int64(c.N(400, 8000)))
}

func c26shape(ps []*genPkg) string {
	var out []string
	for _, p := range ps {
		s := ""
		for _, o := range p.objs {
			if o.singleton {
				s += "s"
			} else {
				s += fmt.Sprintf("o%d", len(o.sk))
			}
		}
		out = append(out, s+strings.Repeat("t", len(p.trs)))
	}
	return strings.Join(out, ",")
}

// c26table renders the driver's table for packages.
func c26table(pk []*genPkg) string {
	var b strings.Builder
	b.WriteString("package main\nimport (\n\"github.com/fdymylja/tmos/runtime/client\"\n")
	for i, p := range pk {
		fmt.Fprintf(&b, "g%d %q\n", i, p.imp)
	}
	b.WriteString(")\nvar table = []entry{\n")
	for i, p := range pk {
		fmt.Fprintf(&b, "{Pkg: %q, Set: func(c client.Client) interface{} { return g%d.NewClientSet(c) },\nObjs: []objEntry{\n", p.imp, i)
		for _, o := range p.objs {
			gn := camel(o.name)
			m := gn
			if !o.singleton && !strings.HasSuffix(gn, "s") {
				m += "s"
			}
			fmt.Fprintf(&b, "{Method: %q, Group: %q, Kind: %q, PK: %q, SK: %#v, Singleton: %v, Obj: new(g%d.%s), Schema: g%d.%sSchema},\n", m, p.file.GetPackage(), o.name, o.pk, o.sk, o.singleton, i, gn, i, gn)
		}
		b.WriteString("}, Trs: []trEntry{\n")
		for _, t := range p.trs {
			fmt.Fprintf(&b, "{Method: %q, Group: %q, Kind: %q, Tr: new(g%d.%s)},\n", "Exec"+camel(t), p.file.GetPackage(), t, i, camel(t))
		}
		b.WriteString("}},\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// c26drive compiles the packages with the driver and runs it.
func c26drive(k *Case, scratch string, overlay map[string]string, pk []*genPkg) {
	c := k.Ctx
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	put := func(rel, content string) {
		p := filepath.Join(scratch, strings.ReplaceAll(rel, "/", "_"))
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			panic(err)
		}
		overlay[filepath.Join(repo, rel)] = p
	}
	put("zz_gen/driver/table.go", c26table(pk))
	overlay[filepath.Join(repo, "zz_gen/driver/driver.go")] = filepath.Join(os.Getenv("VERIF_GEN26"), "driver.go")
	ov, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	ovp := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(ovp, ov, 0o644); err != nil {
		panic(err)
	}
	bin := filepath.Join(scratch, "driver")
	cmd := exec.Command("go", "build", "-overlay", ovp, "-modfile", filepath.Join(os.Getenv("VERIF_WORK"), "go.mod"), "-o", bin, "./zz_gen/driver")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		if strings.Contains(string(out), ".starport.go:") || strings.Contains(string(out), "table.go:") {
			k.Fail("compile", "generated code does not compile: %s", lastOf(string(out), 2500))
			return
		}
		inconclusive("driver build: %v %s", err, lastOf(string(out), 2500))
	}
	run := exec.Command(bin)
	run.Dir = scratch
	var so, se bytes.Buffer
	run.Stdout, run.Stderr = &so, &se
	if err := run.Run(); err != nil {
		k.Fail("driver", "the program using the generated clients fails: %v %s", err, lastOf(se.String(), 2500))
		return
	}
	counted := false
	for _, l := range strings.Split(so.String(), "\n") {
		var x struct {
			Fail   string
			Counts map[string]int64
		}
		if json.Unmarshal([]byte(l), &x) != nil {
			continue
		}
		if x.Fail != "" {
			k.Fail("behaviour", "%s", x.Fail)
		}
		for n, v := range x.Counts {
			counted = true
			c.Count("driver_"+n, v)
		}
	}
	if !counted {
		inconclusive("the driver reports nothing: %s", lastOf(se.String(), 1000))
	}
}

func lastOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func c26compile(c *Ctx) {
	c.CasesW("compile", c.N(2, 12), 2, func(k *Case) {
		r := k.R
		scratch, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "gen")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(scratch)
		overlay := map[string]string{}
		var pk []*genPkg
		for i := 0; i < 16; i++ {
			g := genSchemaFile(r, "zz_gen", i, false)
			if len(g.objs)+len(g.trs) == 0 {
				continue
			}
			req := genRequest([]*descriptorpb.FileDescriptorProto{g.file}, []string{g.file.GetName()})
			res, err := runGenerator(req)
			if err != nil || res.Error != nil {
				k.FailData("generator", g.file, "the generator fails on a valid schema: %v %v", err, res.GetError())
				return
			}
			pb, err := pbCode(req)
			if err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
			for _, f := range res.File {
				pb[f.GetName()] = f.GetContent()
			}
			for name, src := range pb {
				p := filepath.Join(scratch, strings.ReplaceAll(name, "/", "_"))
				_ = os.WriteFile(p, []byte(src), 0o644)
				repo := os.Getenv("REPO")
				if repo == "" {
					repo = "/repo"
				}
				overlay[filepath.Join(repo, strings.TrimPrefix(name, modPath+"/"))] = p
			}
			pk = append(pk, g)
			c.Eval("compiled:" + c26shape([]*genPkg{g}))
		}
		c26drive(k, scratch, overlay, pk)
	})
	c.Expect("driver_packages", int64(c.N(24, 150)))
	for _, x := range []string{"string", "bytes", "bool", "int32", "int64", "uint32", "uint64"} {
		c.Expect("driver_pk_"+x, 1)
	}
	c.Expect("driver_singletons", 3)
	c.Expect("driver_lists", 40)
	c.Expect("driver_listed", 30)
	c.Expect("driver_deliveries", 4)
}

// c26refuse: definitions which cannot be generated are refused, not generated
// anyhow.
func c26refuse(c *Ctx) {
	c.Cases("refuse", c.N(200, 3000), func(k *Case) {
		r := k.R
		g := genSchemaFile(r, "zz_gen", 0, false)
		var ms []*descriptorpb.DescriptorProto
		for _, m := range g.file.MessageType {
			for _, o := range g.objs {
				if o.name == m.GetName() && !o.singleton {
					ms = append(ms, m)
				}
			}
		}
		if len(ms) == 0 {
			k.Count("no object", 1)
			return
		}
		m := ms[r.Intn(len(ms))]
		so := proto.GetExtension(m.Options, modulegen.E_StateObject).(*modulegen.StateObjectDescriptor)
		how := pick(r, "field name", "both", "no key", "missing key", "message key")
		switch how {
		case "field name": // keys are JSON names
			for _, f := range m.Field {
				if jsonCamel(f.GetName()) == so.PrimaryKey {
					f.Name, f.JsonName = proto.String("zz_own"), proto.String("zzOwn")
				}
			}
			so.PrimaryKey = "zz_own"
		case "both":
			proto.SetExtension(m.Options, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
		case "no key":
			so.PrimaryKey = ""
		case "missing key":
			so.PrimaryKey += "Zz"
		case "message key":
			so.PrimaryKey = "wrapped"
		}
		var res *pluginpb.CodeGeneratorResponse
		var err error
		pv, _ := safe(func() {
			res, err = runGenerator(genRequest([]*descriptorpb.FileDescriptorProto{g.file}, []string{g.file.GetName()}))
		})
		if pv == nil && err == nil && res.Error == nil {
			k.FailData("refuse", g.file, "the generator accepts %s although it is wrong: %s", m.GetName(), how)
		}
		k.Count("refused: "+how, 1)
		c.Eval("refuse:" + how + fmt.Sprint(len(g.objs), len(g.trs)))
	})
	for _, h := range []string{"both", "field name", "no key", "missing key", "message key"} {
		c.Expect("refused: "+h, 10)
	}
}

// repoGenerated finds the repository's own annotated files and committed code.
func repoGenerated() map[string]protoreflect.FileDescriptor {
	out := map[string]protoreflect.FileDescriptor{}
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		gp := f.Options().(*descriptorpb.FileOptions).GetGoPackage()
		if !strings.HasPrefix(gp, modPath+"/") || strings.Contains(f.Path(), "zz_") {
			return true
		}
		for i := 0; i < f.Messages().Len(); i++ {
			o := f.Messages().Get(i).Options().(*descriptorpb.MessageOptions)
			if proto.HasExtension(o, modulegen.E_StateObject) || proto.HasExtension(o, modulegen.E_StateTransition) {
				out[f.Path()] = f
			}
		}
		return true
	})
	return out
}

// surface is the exported surface of a Go source file without parameter names
// and function bodies.
func surface(name, src string) ([]string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		return nil, err
	}
	str := func(n interface{}) string {
		var b bytes.Buffer
		_ = printer.Fprint(&b, fs, n)
		return strings.Join(strings.Fields(b.String()), " ")
	}
	noNames := func(t *ast.FuncType) string {
		var ps []string
		for _, l := range []*ast.FieldList{t.Params, t.Results} {
			if l == nil {
				continue
			}
			for _, p := range l.List {
				n := len(p.Names)
				if n == 0 {
					n = 1
				}
				for ; n > 0; n-- {
					ps = append(ps, str(p.Type))
				}
			}
			ps = append(ps, "->")
		}
		return strings.Join(ps, " ")
	}
	var out []string
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if !x.Name.IsExported() {
				continue
			}
			recv := ""
			if x.Recv != nil {
				recv = str(x.Recv.List[0].Type)
				if !ast.IsExported(strings.TrimPrefix(recv, "*")) {
					continue
				}
			}
			out = append(out, "func "+recv+"."+x.Name.Name+" "+noNames(x.Type))
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					if !y.Name.IsExported() {
						continue
					}
					if it, ok := y.Type.(*ast.InterfaceType); ok {
						var ms []string
						for _, m := range it.Methods.List {
							if ft, ok := m.Type.(*ast.FuncType); ok && len(m.Names) == 1 {
								ms = append(ms, m.Names[0].Name+" "+noNames(ft))
							} else {
								ms = append(ms, str(m.Type))
							}
						}
						sort.Strings(ms)
						out = append(out, "interface "+y.Name.Name+" {"+strings.Join(ms, "; ")+"}")
					} else {
						out = append(out, "type "+y.Name.Name)
					}
				case *ast.ValueSpec:
					for _, n := range y.Names {
						if n.IsExported() {
							out = append(out, "var "+n.Name)
						}
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

// c26repo regenerates the repository's own schemas and drives the committed
// clients.
func c26repo(c *Ctx) {
	files := repoGenerated()
	var paths []string
	for p := range files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	c.Cases("repository", len(paths), func(k *Case) {
		f := files[paths[k.Idx]]
		fdp := protodesc.ToFileDescriptorProto(f)
		req := genRequest([]*descriptorpb.FileDescriptorProto{fdp}, []string{f.Path()})
		res, err := runGenerator(req)
		if err != nil || res.Error != nil {
			k.Fail("generator", "the generator fails on %s: %v %v", f.Path(), err, res.GetError())
			return
		}
		gp := f.Options().(*descriptorpb.FileOptions).GetGoPackage()
		name := gp + "/" + strings.TrimSuffix(filepath.Base(f.Path()), ".proto") + ".starport.go"
		found := false
		for _, g := range res.File {
			if g.GetName() != name {
				continue
			}
			found = true
			committed, err := os.ReadFile(filepath.Join(repo, strings.TrimPrefix(name, modPath+"/")))
			if err != nil {
				k.Fail("committed", "no committed code for %s: %v", f.Path(), err)
				return
			}
			a, err := surface(name, g.GetContent())
			if err != nil {
				k.Fail("compile", "regenerated code does not parse: %v", err)
				return
			}
			b, err := surface(name, string(committed))
			if err != nil {
				inconclusive("committed code does not parse: %v", err)
			}
			if d := listDiff(b, a); len(d) > 0 {
				k.Fail("committed", "regenerating %s does not reproduce the committed code: %v", f.Path(), d)
			}
			c.Count("declarations_compared", int64(len(a)))
		}
		if !found {
			k.Fail("files", "no code is generated for %s", f.Path())
		}
		c.Count("repository_schemas", 1)
		c.Eval("repo:" + f.Path())
	})
	c.CasesW("committed", 1, 1, func(k *Case) {
		var pk []*genPkg
		for _, p := range paths {
			f := files[p]
			g := &genPkg{file: protodesc.ToFileDescriptorProto(f), imp: f.Options().(*descriptorpb.FileOptions).GetGoPackage()}
			for i := 0; i < f.Messages().Len(); i++ {
				m := f.Messages().Get(i)
				o := m.Options().(*descriptorpb.MessageOptions)
				if d, _ := proto.GetExtension(o, modulegen.E_StateObject).(*modulegen.StateObjectDescriptor); d != nil {
					g.objs = append(g.objs, genObj{name: string(m.Name()), singleton: d.Singleton, pk: d.PrimaryKey, sk: d.SecondaryKeys})
				}
				if d, _ := proto.GetExtension(o, modulegen.E_StateTransition).(*modulegen.StateTransitionDescriptor); d != nil {
					g.trs = append(g.trs, string(m.Name()))
				}
			}
			pk = append(pk, g)
		}
		scratch, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "gen")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(scratch)
		c26drive(k, scratch, map[string]string{}, pk)
	})
	c.Expect("repository_schemas", 5)
}

func listDiff(want, got []string) []string {
	m := map[string]int{}
	for _, x := range want {
		m[x]++
	}
	for _, x := range got {
		m[x]--
	}
	var out []string
	for x, n := range m {
		if n > 0 {
			out = append(out, "missing: "+x)
		} else if n < 0 {
			out = append(out, "extra: "+x)
		}
	}
	sort.Strings(out)
	return out
}

// c26plugin runs the plugin binary as protoc would.
func c26plugin(c *Ctx) {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	work := os.Getenv("VERIF_WORK")
	bin := filepath.Join(work, "protoc-gen-starport")
	cmd := exec.Command("go", "build", "-modfile", filepath.Join(work, "go.mod"), "-o", bin, "./cmd/protoc-gen-starport")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		inconclusive("plugin build: %v %s", err, lastOf(string(out), 2000))
	}
	c.Cases("plugin", c.N(24, 300), func(k *Case) {
		r := k.R
		g := genSchemaFile(r, "zz_gen", 0, false)
		h := genSchemaFile(r, "zz_gen", 1, false)
		req := genRequest([]*descriptorpb.FileDescriptorProto{g.file, h.file}, []string{g.file.GetName(), h.file.GetName()})
		want, err := runGenerator(req)
		if err != nil {
			k.Fail("generator", "the generator fails on a valid schema: %v", err)
			return
		}
		p := exec.Command(bin)
		b, _ := proto.Marshal(req)
		p.Stdin = bytes.NewReader(b)
		out, err := p.Output()
		if err != nil {
			k.Fail("plugin", "the plugin fails on a valid schema: %v", err)
			return
		}
		var got pluginpb.CodeGeneratorResponse
		if err := proto.Unmarshal(out, &got); err != nil {
			k.Fail("plugin", "the plugin's answer does not parse: %v", err)
			return
		}
		if got.GetError() != want.GetError() || len(got.File) != len(want.File) {
			k.Fail("plugin", "the plugin answers otherwise than its generator: %d files %q", len(got.File), got.GetError())
			return
		}
		for i := range got.File {
			if !proto.Equal(got.File[i], want.File[i]) {
				k.Fail("determinism", "two processes generate different code for %s", got.File[i].GetName())
				return
			}
		}
		c.Count("plugin_runs", 1)
		c.Eval("plugin:" + c26shape([]*genPkg{g, h}))
	})
	c.Expect("plugin_runs", 20)
}

func c26(c *Ctx) {
	c.Rule("schemas are drawn with their specification; generated code is compiled with the official Go protobuf code and every generated client is driven through the real object store with each call observed at the underlying client; the repository's committed clients are driven likewise and their exported surface is compared with the regenerated one")
	c.Assume("at most one annotated file per Go package (the generated ClientSet is per package)", "generated names do not collide with each other (Foo next to Foos, FooClient, ClientSet)", "annotated messages are top-level", "keys are of the kinds the store can encode")
	c26generate(c)
	c26refuse(c)
	c26plugin(c)
	c26repo(c)
	c26compile(c)
}
