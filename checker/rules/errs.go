package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register("C07", "A failure is never taken for success or for absence", c07)
}

var errType = types.Universe.Lookup("error").Type()

// errOf is the error result of a call event.
func (f *F) errOf(e *eng.Event) *Term {
	if e.Kind != "call" || e.Res == nil || e.Res.T == nil {
		return nil
	}
	if tp, ok := e.Res.T.(*types.Tuple); ok {
		n := tp.Len()
		if n == 0 || !types.Identical(tp.At(n-1).Type(), errType) {
			return nil
		}
		if n == 1 {
			return e.Res
		}
		return f.X.In.Mk("ext", fmt.Sprint(n-1), e.Res)
	}
	if types.Identical(e.Res.T, errType) {
		return e.Res
	}
	return nil
}

// rootName is the named function fn is (part of).
func (r *R) rootName(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return r.P.Name(fn)
}

// swallowed: on a path of f that reports no failure, the failure of a call that is neither
// excluded nor reported.  The key says what is tolerated.
func (f *F) swallowed(o *eng.Out, hasErr bool) (keys []string, hits []Hit) {
	for _, h := range f.Flat(o) {
		if h.E.Kind == "loop" || h.CB {
			continue // a closure is a function of its own
		}
		e := f.errOf(h.E)
		if e == nil || errCtor[h.E.Name] {
			continue
		}
		st := h.St
		if f.X.NilState(st, e) == 1 || f.X.NilState(o.St, e) == 1 {
			continue
		}
		uses := func(t *Term) bool { return usesErr(t, e) }
		if !hasErr && (f.Fn.Parent() == nil || f.X.NilState(o.St, e) != -1) {
			if h.E.Name == "" {
				continue
			}
			seen := false
			for _, c := range append(append([]*Term(nil), st.Facts...), o.St.Facts...) {
				seen = seen || uses(c)
			}
			if seen {
				continue
			}
		}
		out, kept := false, true
		for _, t := range o.Res {
			out = out || uses(t)
		}
		fresh := true
		for _, g := range f.Flat(o) {
			switch g.E.Kind {
			case "store", "send", "mapupd":
				for _, a := range g.E.Args[1:] {
					out = out || uses(a)
				}
				// a callback runs many times: storing the outcome of this time loses an earlier failure
				if a := g.E.Args; g.E.Kind == "store" && f.Fn.Parent() != nil && !hasErr && a[1] == e && f.X.NilState(g.St, e) != -1 && a[0].Op == "freevar" {
					// unless no failure has been kept there yet (the content at entry has the term of the variable)
					if f.X.NilState(g.St, f.X.Read(g.St, a[0])) != 1 && !(fresh && f.X.NilState(g.St, a[0]) == 1) {
						kept = false
					}
				} else if g.E.Kind == "store" && a[0].Op == "freevar" && types.Identical(a[0].T.(*types.Pointer).Elem(), errType) && f.X.NilState(g.St, a[1]) != 1 {
					fresh = false
				}
			}
		}
		if out && kept {
			continue
		}
		key := errKey(h.E.Name, e, append(append([]*Term(nil), st.Facts...), o.St.Facts...))
		keys = append(keys, key)
		hits = append(hits, h)
	}
	return
}

// usesErr: t is made of the error e.  What the failing call left in its arguments is not.
func usesErr(t, e *Term) bool {
	if t == nil {
		return false
	}
	if t == e {
		return true
	}
	for _, a := range t.Args {
		if a == e && (t.Op == "out" || t.Op == "cbout") {
			continue
		}
		if usesErr(a, e) {
			return true
		}
	}
	return false
}

var errCtor = map[string]bool{"errors.New": true, "fmt.Errorf": true}

// tolerated: failures that a function may go on after, each reviewed.  "fn callee" or
// "fn callee==Sentinel" (only that error) or "fn callee?test" (only errors the test accepts).
var tolerated = map[string]string{
	"issuer.Issuer.SyncIdenStatePublic idenpubonchain.IdenPubOnChainer.GetState==gval:idenpubonchain.ErrIdenNotOnChain": "no state on chain is a state of its own",
	"issuer.Issuer.SyncIdenStatePublic idenpubonchain.IdenPubOnChainer.TxConfirmBlocks==gval:eth.ErrReceiptNotReceived": "the transaction is still pending",
	"issuer.Issuer.PublishState claims.AddLeafRootsTree==gval:merkletree.ErrEntryIndexAlreadyExists":                    "the root is already in the roots tree",
	"merkletree.NewMerkleTree merkletree.MerkleTree.dbGet==gval:db.ErrNotFound":                                         "no root stored: a new tree",
	"merkletree.MerkleTree.ImportTree merkletree.deserializeKV==gval:io.EOF":                                            "end of the dump",
	"merkletree.MerkleTree.addNode db.Tx.Get":                                                                           "a node that cannot be read is written again with the same content",
	"keystore.NewKeyStore keystore.Storage.Read?os.IsNotExist":                                                          "no file: a new key store",
	"zk.download os.Stat?os.IsNotExist":                                                                                 "not downloaded yet",
	"zk.download os.Remove":                                                                                             "clean-up of the lock file",
	"crypto.VerifySig crypto.UnmarshalPubkey":                                                                           "the input is a key that Ecrecover returned",
	"db.LevelDbStorage.Info json.MarshalIndent":                                                                         "marshals two integers",
	"zk.ZkFiles.DebugDownloadPrintHashes os.RemoveAll":                                                                  "clean-up of a temporary directory",
}

// toleratedIn: functions that only print for a human.
var toleratedIn = map[string]bool{"merkletree.MerkleTree.GraphViz fmt.Fprintf": true, "merkletree.MerkleTree.PrintGraphViz fmt.Fprintf": true, "merkletree.Proof.String fmt.Fprintf": true, "merkletree.MerkleTree.GraphViz merkletree.Node.Key": true}

// toleratedCallee: releasing a resource after its use.
var toleratedCallee = map[string]bool{"os.File.Close": true, "io.ReadCloser.Close": true, "flock.Flock.Unlock": true, "keystore.Storage.Unlock": true, "keystore.KeyStore.Close": true, "io.Closer.Close": true, "flock.Flock.Close": true}

// converted: failures reported as one of the errors that callers take for an answer.
var converted = map[string]string{
	"db.LevelDbStorage.Get leveldb.DB.Get==gval:errors.ErrNotFound gval:db.ErrNotFound":                                                                       "",
	"db.LevelDbStorageTx.Get leveldb.DB.Get==gval:errors.ErrNotFound gval:db.ErrNotFound":                                                                     "",
	"issuer.Issuer.GenCredentialExistence issuer.generateExistenceMTProof==gval:issuer.ErrClaimNotFoundStateOnChain gval:issuer.ErrClaimNotFoundClaimsTree":   "",
	"issuer.Issuer.GenCredentialExistence issuer.generateExistenceMTProof==gval:issuer.ErrClaimNotFoundStateOnChain gval:issuer.ErrClaimNotYetInOnChainState": "",
	"issuer.Issuer.GenCredentialExistence merkletree.MerkleTree.EntryExists==gval:merkletree.ErrEntryIndexNotFound gval:issuer.ErrClaimNotFoundClaimsTree":    "",
	"issuer.Issuer.GenCredentialExistence merkletree.MerkleTree.EntryExists==gval:merkletree.ErrEntryDataNotMatch gval:issuer.ErrClaimNotFoundClaimsTree":     "",
	"merkletree.MerkleTree.ImportTree merkletree.deserializeKV==gval:io.EOF gval:merkletree.ErrInvalidDBValue":                                                "",
	"merkletree.deserializeKV io.ReadFull==gval:io.EOF gval:io.ErrUnexpectedEOF":                                                                              "",
}

// lostInCallback: a closure handed to h keeps an error in a captured variable, cannot return it,
// and this successful path neither finds that variable nil nor hands it on.
func (f *F) lostInCallback(o *eng.Out, h Hit, hasErr bool) bool {
	if !hasErr {
		return false
	}
	for _, cb := range h.E.CB {
		if n := len(cb.Res); n > 0 && cb.Res[n-1] != nil && cb.Res[n-1].T != nil && types.Identical(cb.Res[n-1].T, errType) {
			return false
		}
	}
	for _, t := range h.E.CBOut {
		if t.T == nil || !types.Identical(t.T, errType) || f.X.NilState(h.St, t) == 1 || f.X.NilState(o.St, t) == 1 {
			continue
		}
		out := false
		for _, res := range o.Res {
			out = out || res != nil && res.Any(func(u *Term) bool { return u == t })
		}
		if !out {
			return true
		}
	}
	return false
}

func skipPkg(name string) bool {
	return strings.HasPrefix(name, "contracts.") || strings.HasPrefix(name, "testgen.") || strings.HasPrefix(name, "testhelpers.")
}

// askedFor: the errors of this module that some code compares with.
func (r *R) askedFor() map[string]bool {
	m := map[string]bool{}
	see := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				m["gval:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
			}
		}
	}
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.BinOp:
					if i.Op == token.EQL || i.Op == token.NEQ {
						see(i.X)
						see(i.Y)
					}
				case *ssa.Call:
					if c := i.Call.StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "errors" {
						for _, a := range i.Call.Args {
							see(a)
						}
					}
				}
			}
		}
	}
	return m
}

func c07(r *R) {
	n := 0
	asked := r.askedFor()
	for _, fn := range r.P.Funcs {
		name := r.P.Name(fn)
		root := r.rootName(fn)
		if fn.Name() == "init" || !knownFuncs[root] || skipPkg(root) {
			continue
		}
		f := r.F(name, "!known")
		if f.Err != nil {
			continue
		}
		n++
		r.Ob("can-succeed", root, len(f.Succ) > 0 || neverSucceeds[name], f.pos(token.NoPos), "no input lets "+name+" return without a failure or a panic")
		for _, o := range f.Outs {
			if e := f.nilPanic(o); e != nil {
				r.Ob("nil-used", root, false, f.pos(e.Pos), name+" goes on with a pointer that is nil, or writes to a nil map"+f.pathDesc(o))
			}
		}
		used := map[token.Pos]bool{}
		r.Ob("result-used", root, true, "", "")
		for _, o := range f.Outs {
			for _, h := range f.Flat(o) {
				switch {
				case h.E.Kind == "unsure" && !used[h.E.Pos]:
					used[h.E.Pos] = true
					if c := h.E.Args[0].Args[0]; tolerated[root+" "+c.Aux] != "" {
						continue
					}
					r.Ob("result-used", root, false, f.pos(h.E.Pos), name+" uses "+short(h.E.Args[0])+" before it knows that the call did not fail")
				case h.E.Kind == "call" && h.E.Name == "db.Tx.Commit":
					for _, g := range f.Flat(o)[:h.I] {
						e := f.errOf(g.E)
						if e == nil || g.CB || errCtor[g.E.Name] || f.knownAt(h, "eq(?e,nil)", eng.Bind{"e": e}) || g.Step != h.Step && f.X.NilState(g.St, e) == 1 {
							continue
						}
						k := root + " " + errKey(g.E.Name, e, h.St.Facts)
						r.Ob("commit-sure", root+" "+g.E.Name, tolerated[k] != "", f.pos(h.E.Pos), "what is committed may lack the work of "+g.E.Name+", which may have failed")
					}
				}
			}
		}
		for _, o := range f.Outs {
			if h, c := f.usedClosed(o); h != nil {
				r.Ob("closed-used", root, false, f.pos(h.E.Pos), h.E.Name+" uses "+short(c.E.Args[0])+" after "+c.E.Name+f.pathDesc(o))
			}
		}
		r.Ob("closed-used", root, true, "", "")
		res := fn.Signature.Results()
		hasErr := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), errType)
		for _, o := range f.Succ {
			for _, h := range f.Flat(o) {
				if f.errOf(h.E) != nil && !h.CB && !errCtor[h.E.Name] {
					r.Ob("failure-noticed", root+" "+h.E.Name, true, "", "")
				}
			}
			for _, h := range f.Flat(o) {
				if len(h.E.CBOut) > 0 && !h.CB {
					r.Ob("callback-failure-noticed", root+" "+h.E.Name, !f.lostInCallback(o, h, hasErr), f.pos(h.E.Pos), "a failure inside the function handed to "+h.E.Name+" is kept in a variable that is not looked at"+f.pathDesc(o))
				}
			}
			ks, hs := f.swallowed(o, hasErr)
			for i, k := range ks {
				if tolerated[root+" "+k] != "" || toleratedIn[root+" "+k] || toleratedCallee[k] || printer(hs[i].E) {
					continue
				}
				r.Ob("failure-noticed", root+" "+hs[i].E.Name, false, f.pos(hs[i].E.Pos), "a failure of "+k+" goes unnoticed: the function goes on as if the call had succeeded"+f.pathDesc(o))
			}
		}
		if !hasErr {
			continue
		}
		for _, o := range f.Fail {
			e := eng.StripIface(o.Res[len(o.Res)-1])
			if e.Op != "gval" {
				continue
			}
			for _, h := range f.Flat(o) {
				c := f.errOf(h.E)
				if c == nil || h.CB || f.X.NilState(o.St, c) != -1 {
					continue
				}
				k := errKey(h.E.Name, c, o.St.Facts) + " " + short(e)
				_, ok := converted[root+" "+k]
				if g := h.E.Callee; !ok && g != nil && len(g.Blocks) > 0 && !asked[short(e)] { // the input is bad, whatever it is called
					ef := r.P.Effects(g)
					ok = !ef.Impure && !ef.Handle
				}
				r.Ob("failure-kind", root+" "+h.E.Name, ok, f.pos(h.E.Pos), "a failure of "+h.E.Name+" is reported as "+short(e)+", which callers take for an answer"+f.pathDesc(o))
			}
		}
	}
	r.Ob("analysed", "functions", n > 300, "?", fmt.Sprint("only ", n, " functions"))
}

// closers end the life of their first argument.
var closers = map[string]bool{"db.Tx.Commit": true, "db.Tx.Close": true, "os.File.Close": true, "leveldb.DB.Close": true, "io.ReadCloser.Close": true,
	"iterator.Iterator.Release": true, "util.Releaser.Release": true, "db.Storage.Close": true, "flock.Flock.Unlock": true, "keystore.KeyStore.Close": true}

// usedClosed: the use of something that path o has closed before, and its closing.
func (f *F) usedClosed(o *eng.Out) (use, cl *Hit) {
	flat := f.Flat(o)
	for i := range flat {
		c := &flat[i]
		if c.E.Kind != "call" || !closers[c.E.Name] || c.CB || len(c.E.Args) == 0 {
			continue
		}
		for j := i + 1; j < len(flat); j++ {
			h := &flat[j]
			if h.E.Kind != "call" || h.CB || h.Step != c.Step && h.Step != nil || closers[h.E.Name] && h.E.Name != "db.Tx.Commit" {
				continue
			}
			if i := strings.LastIndexByte(c.E.Name, '.'); h.E.Name == c.E.Name[:i]+".Lock" || h.E.Name == c.E.Name[:i]+".TryLock" || h.E.Name == "iterator.Iterator.Error" || printer(h.E) {
				continue
			}
			for k, a := range h.E.Args {
				if a == c.E.Args[0] && (k == 0 || !strings.Contains(h.E.Name, "log")) {
					return h, c
				}
			}
		}
	}
	return nil, nil
}

// nilPanic: the use of a nil pointer that ends path o.
func (f *F) nilPanic(o *eng.Out) *eng.Event {
	if o.Kind != "panic" {
		return nil
	}
	for _, h := range f.Flat(o) {
		if h.E.Kind == "panic" && h.E.Name == "nil" {
			return h.E
		}
	}
	return nil
}

// neverSucceeds: functions that never return normally, reviewed.
var neverSucceeds = map[string]bool{"issuer.Issuer.Sign": true, "issuer.Issuer.UpdateClaim": true} // not implemented

// printer: output for a human on the process's own streams.
func printer(e *eng.Event) bool {
	return e.Name == "fmt.Print" || e.Name == "fmt.Println" || e.Name == "fmt.Printf"
}

// errKey names a call and what is known about its failure.
func errKey(name string, e *Term, facts []*Term) string {
	for _, c := range facts {
		if c.Op == "eq" && (c.Args[0] == e || c.Args[1] == e) {
			s := c.Args[0]
			if s == e {
				s = c.Args[1]
			}
			return name + "==" + strings.TrimPrefix(short(s), "@")
		}
		if c.Op == "call" && c.Aux == "errors.Is" && len(c.Args) == 2 && c.Args[0] == e {
			return name + "==" + strings.TrimPrefix(short(c.Args[1]), "@")
		}
		if c.Op == "call" && c.Any(func(u *Term) bool { return u == e }) {
			return name + "?" + c.Aux
		}
	}
	return name
}
