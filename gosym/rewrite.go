package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"io/ioutil"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Native replay of a schedule: the operations that the encoding treats as
// scheduling points are wrapped, in a copy of the code, by a gate that lets
// them proceed in the recorded order (see vsym/sched.go).

// instrumented says whether operations of the file take part in the schedule.
func instrumented(file string) bool {
	if !strings.HasPrefix(file, repoDir+"/") {
		return false
	}
	for _, d := range []string{"vsym", "vmodel", "kvmodel", "rpcmodel", "engmodel", "netmodel"} {
		if strings.HasPrefix(file, repoDir+"/zzverif/"+d+"/") {
			return false
		}
	}
	return !strings.HasPrefix(file, repoDir+"/vendor/")
}

type edit struct {
	off  int
	text string
	seq  int
	del  int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	file  *ast.File
	tf    *token.File
	src   []byte
	edits []edit
	n     int
	used  bool
}

func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.tf.Offset(p), text: s, seq: len(r.edits)})
	r.used = true
}

// insOuter inserts before everything inserted at p so far or later by ins.
func (r *rewriter) insOuter(p token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.tf.Offset(p), text: s, seq: -len(r.edits) - 1})
	r.used = true
}

func (r *rewriter) site(from, to token.Pos) string {
	f := r.fset.Position(from)
	t := r.fset.Position(to)
	return fmt.Sprintf("%q", fmt.Sprintf("%s:%d:%d", f.Filename, f.Line, t.Line))
}

// text is the source between two positions.
func (r *rewriter) text(a, b token.Pos) string {
	return string(r.src[r.tf.Offset(a):r.tf.Offset(b)])
}

func pkgFunc(info *types.Info, c *ast.CallExpr) (string, string) {
	se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	fn, ok := info.Uses[se.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil {
		return "", ""
	}
	if fn.Type().(*types.Signature).Recv() != nil {
		return fn.Pkg().Path(), "." + fn.Name()
	}
	return fn.Pkg().Path(), fn.Name()
}

func gatedCall(path, name string) (arg, recv bool) {
	switch path {
	case "sync":
		switch name {
		case ".Lock", ".Unlock", ".RLock", ".RUnlock", ".TryLock", ".TryRLock", ".Add", ".Done", ".Wait":
			return false, true
		}
	case "sync/atomic":
		if strings.HasPrefix(name, ".") {
			return false, true
		}
		return true, false
	}
	return false, false
}

func (r *rewriter) visit(n ast.Node, comm bool) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !comm {
			r.ins(x.X.Pos(), "zv.P("+r.site(x.Pos(), x.End())+", ")
			r.children(x)
			r.ins(x.X.End(), ")")
			return
		}
	case *ast.SendStmt:
		if !comm {
			r.ins(x.Chan.Pos(), "zv.P("+r.site(x.Pos(), x.End())+", ")
			r.visit(x.Chan, false)
			r.ins(x.Chan.End(), ")")
			r.visit(x.Value, false)
			return
		}
	case *ast.SelectStmt:
		r.insOuter(x.Pos(), "zv.Pt("+r.site(x.Pos(), x.End())+"); ")
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm != nil {
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					r.visit(s, true)
				case *ast.ExprStmt:
					r.visit(s.X, true)
				case *ast.AssignStmt:
					for _, e := range s.Rhs {
						r.visit(e, true)
					}
				}
			}
			for _, b := range cc.Body {
				r.visit(b, false)
			}
		}
		return
	case *ast.RangeStmt:
		if t, ok := r.info.TypeOf(x.X).Underlying().(*types.Chan); ok && t != nil {
			k := "_"
			if x.Key != nil {
				k = r.text(x.Key.Pos(), x.Key.End())
			}
			op := ":="
			if x.Tok == token.ASSIGN {
				op = "="
			}
			hdr := fmt.Sprintf("for { %s, zvok %s <-zv.P(%s, %s); if !zvok { break }; ", k, op, r.site(x.Pos(), x.X.End()),
				r.text(x.X.Pos(), x.X.End()))
			if op == "=" {
				hdr = strings.Replace(hdr, "for { ", "for { var zvok bool; ", 1)
			}
			o := r.tf.Offset(x.Pos())
			r.edits = append(r.edits, edit{off: o, text: hdr, del: r.tf.Offset(x.Body.Lbrace) + 1 - o, seq: len(r.edits)})
			r.used = true
			r.visit(x.Body, false)
			return
		}
	case *ast.GoStmt:
		r.goStmt(x)
		return
	case *ast.DeferStmt:
		path, name := pkgFunc(r.info, x.Call)
		a, b := gatedCall(path, name)
		isClose := false
		if id, ok := ast.Unparen(x.Call.Fun).(*ast.Ident); ok {
			if bi, ok := r.info.Uses[id].(*types.Builtin); ok && bi.Name() == "close" {
				isClose = true
			}
		}
		if a || b || isClose {
			r.insOuter(x.Call.Pos(), "func() { ")
			r.visit(x.Call, false)
			r.ins(x.Call.End(), " }()")
			return
		}
	case *ast.CallExpr:
		path, name := pkgFunc(r.info, x)
		if arg, recv := gatedCall(path, name); arg && len(x.Args) > 0 {
			r.ins(x.Args[0].Pos(), "zv.P("+r.site(x.Pos(), x.End())+", ")
			r.visit(x.Args[0], false)
			r.ins(x.Args[0].End(), ")")
			for _, y := range x.Args[1:] {
				r.visit(y, false)
			}
			return
		} else if recv {
			se := ast.Unparen(x.Fun).(*ast.SelectorExpr)
			amp := "&"
			if t := r.info.TypeOf(se.X); t != nil {
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Interface:
					amp = ""
				}
			}
			r.ins(se.X.Pos(), "zv.P("+r.site(x.Pos(), x.End())+", "+amp)
			r.visit(se.X, false)
			r.ins(se.X.End(), ")")
			for _, y := range x.Args {
				r.visit(y, false)
			}
			return
		}
		switch path + "." + name {
		case "runtime.Gosched":
			r.ins(x.Pos(), "zv.Yield(")
			r.ins(x.Fun.End(), ")")
			o := r.tf.Offset(x.Fun.End())
			r.edits = append(r.edits, edit{off: o, del: r.tf.Offset(x.End()) - o, seq: len(r.edits)})
			return
		case "time.Sleep":
			r.ins(x.Pos(), "zv.Sleep(")
			r.ins(x.Lparen, ", ")
			o := r.tf.Offset(x.Lparen)
			r.edits = append(r.edits, edit{off: o, del: 1, seq: len(r.edits)})
			r.children(x)
			return
		}
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) == 1 {
			if bi, ok := r.info.Uses[id].(*types.Builtin); ok && bi.Name() == "close" {
				r.ins(x.Args[0].Pos(), "zv.P("+r.site(x.Pos(), x.End())+", ")
				r.visit(x.Args[0], false)
				r.ins(x.Args[0].End(), ")")
				return
			}
		}
	}
	r.children(n)
}

// children visits the direct children of n.
func (r *rewriter) children(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			r.visit(c, false)
		}
		return false
	})
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.n++
	id := fmt.Sprintf("zvid%d", r.n)
	r.insOuter(x.Pos(), "{ "+id+" := zv.Go("+r.site(x.Pos(), x.End())+"); ")
	enter := "zv.Enter(" + id + "); defer zv.Exit(); "
	if fl, ok := ast.Unparen(x.Call.Fun).(*ast.FuncLit); ok {
		r.ins(fl.Body.Lbrace+1, " "+enter)
		r.visit(fl.Body, false)
		for _, a := range x.Call.Args {
			r.visit(a, false)
		}
		r.ins(x.End(), " }")
		return
	}
	// evaluate the function and its arguments here
	var pre, call strings.Builder
	fmt.Fprintf(&pre, "zvf%d := %s; ", r.n, r.text(x.Call.Fun.Pos(), x.Call.Fun.End()))
	fmt.Fprintf(&call, "zvf%d(", r.n)
	for i, a := range x.Call.Args {
		if i > 0 {
			call.WriteString(", ")
		}
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			call.WriteString(r.text(a.Pos(), a.End()))
			continue
		}
		fmt.Fprintf(&pre, "zva%d_%d := %s; ", r.n, i, r.text(a.Pos(), a.End()))
		fmt.Fprintf(&call, "zva%d_%d", r.n, i)
	}
	if x.Call.Ellipsis.IsValid() {
		call.WriteString("...")
	}
	call.WriteString(")")
	o := r.tf.Offset(x.Pos())
	r.edits = append(r.edits, edit{off: o, seq: len(r.edits), del: r.tf.Offset(x.End()) - o,
		text: pre.String() + "go func() { " + enter + call.String() + " }() }"})
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if (a.del > 0) != (b.del > 0) {
			return b.del > 0
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			continue // inside replaced text
		}
		sb.Write(r.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.off + e.del
	}
	sb.Write(r.src[pos:])
	return []byte(sb.String())
}

// rewriteAll writes gated copies of the packages' files and adds them to ov.
func rewriteAll(lp []*packages.Package, work string, ov map[string]string) error {
	n := 0
	var err error
	packages.Visit(lp, nil, func(p *packages.Package) {
		if err != nil || !strings.HasPrefix(p.PkgPath, modPath) || strings.HasSuffix(p.PkgPath, "/zzverif/vsym") {
			return
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Package).Filename
			if !instrumented(name) {
				continue
			}
			from := name
			if o, ok := ov[name]; ok {
				from = o
			}
			src, e := ioutil.ReadFile(from)
			if e != nil {
				err = e
				return
			}
			r := &rewriter{fset: p.Fset, info: p.TypesInfo, file: f, tf: p.Fset.File(f.Package), src: src}
			if r.tf.Size() != len(src) {
				err = fmt.Errorf("%s changed while being read", name)
				return
			}
			for _, d := range f.Decls {
				r.visit(d, false)
			}
			if !r.used {
				continue
			}
			r.ins(f.Name.End(), "; import zv \""+modPath+"/zzverif/vsym\"")
			n++
			out := filepath.Join(work, fmt.Sprintf("gated_%d_%s", n, filepath.Base(name)))
			if e := ioutil.WriteFile(out, append([]byte("//go:build go1.18\n"), r.apply()...), 0644); e != nil {
				err = e
				return
			}
			ov[name] = out
		}
	})
	return err
}
