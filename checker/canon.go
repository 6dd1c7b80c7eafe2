package main

// Renamed struct types and fields are given the names the analyses know them by, before anything is analysed:
// a type or field is recognised by its type and its place among the others of that type. The source files are
// replaced by an overlay that differs in identifiers only, so that lines stay the same.

import (
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

var knownStructs = map[string]string{
	"Allocator":       "idx *Tree; id int; empty bool; nextFree uint64; block int; blockSize uint64; offset uint64; recycler [][]recycledItem; newBlocks chan int; manager *epochManager; globalEpoch *uint64; reserveSlot *uint64; counter uint64; itemCounter int64",
	"Counter":         "NodesWithPrefix int; NodeSizes []int; TotalPrefixLength int; TotalPrefixBytes int; LargePrefixes int; Elapsed time.Duration; idx *Tree; stack []counterPosition",
	"DeleteOperation": "Value uint64; FetchedKey []byte; idx *Tree; allocator *Allocator; releaseAlloc bool; kind uint32; raw uint64; leafPtr *uint64; nodePtr *uint64; parentGen int32; nodeGen int32; childGen int32; parent uint64; node uint64; child uint64; data []uint64; newLeaf uint64; count int; prefixLen int; prefixSlots int; leafPosition int; nodeSlots int; prefix []byte",
	"Iterator":        "idx *Tree; value uint64; stack []position; prefetched []uint64; pp int; searchPrefix []byte; resumeAt []byte; done bool",
	"Options":         "NumAllocators int",
	"Tree":            "blocks [N]*nodeBlock; nextFreeBlock uint64; root uint64; liveObjects int64; rootLeafLock int32; manager *epochManager; allocators []*Allocator; allocatorQueue *slots; newBlocks chan int; done chan bool; blockMap map[int]int; blockMapLock sync.RWMutex; stopLock sync.Mutex; stopped bool",
	"UpdateOperation": "Key []byte; Value uint64; FetchedKey []byte; Match bool; idx *Tree; allocator *Allocator; releaseAlloc bool; kind uint32; k byte; position int; nodeGen int32; parentGen int32; node uint64; parent uint64; count int; depth int; prefix []byte; prefixMismatch int; nodePtr *uint64; data []uint64; prefixSlots int; leafPtr *uint64; currentLeaf uint64; raw uint64",
	"counterPosition": "raw uint64; nextChild int",
	"epochManager":    "n int; globalEpoch *uint64; slots []*reserveSlot; reservations []*uint64",
	"item":            "v uint64",
	"nodeBlock":       "data []uint64; locks [N]int32; slotsReleased int64; slotsReused int64",
	"position":        "node uint64; k int; more bool",
	"recycledItem":    "n uint64; e uint64",
	"reserveSlot":     "r uint64",
	"slots":           "slots []item",
}

type fieldDesc struct{ name, typ string }

func knownFields(s string) (l []fieldDesc) {
	for _, f := range strings.Split(s, "; ") {
		n, t, _ := strings.Cut(f, " ")
		l = append(l, fieldDesc{n, t})
	}
	return
}

var arrayLenRE = regexp.MustCompile(`\[\d+\]`)

// canonOverlay gives the files of the package with renamed things named as known, nil if nothing is renamed
func canonOverlay(pkg *packages.Package) map[string][]byte {
	scope := pkg.Types.Scope()
	structs := map[string]*types.Struct{}
	for _, n := range scope.Names() {
		if tn, ok := scope.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				structs[n] = st
			}
		}
	}
	alias := map[string]string{} // type found -> type known
	qual := func(p *types.Package) string {
		if p == pkg.Types {
			return ""
		}
		return p.Name()
	}
	word := regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_.]*`)
	typeOf := func(t types.Type) string {
		s := arrayLenRE.ReplaceAllString(types.TypeString(t, qual), "[N]")
		return word.ReplaceAllStringFunc(s, func(w string) string {
			if a := alias[w]; a != "" {
				return a
			}
			return w
		})
	}
	found := func(st *types.Struct) (l []fieldDesc) {
		for i := 0; i < st.NumFields(); i++ {
			if n := st.Field(i).Name(); n != "_" {
				l = append(l, fieldDesc{n, typeOf(st.Field(i).Type())})
			}
		}
		return
	}
	rename := map[types.Object]string{}
	// types: an unknown struct with the same types of fields as a missing one
	var missing []string
	for n := range knownStructs {
		if structs[n] == nil {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	for round := 0; round < 3; round++ {
		for _, m := range missing {
			if scope.Lookup(m) != nil {
				continue
			}
			var cand []string
			for n, st := range structs {
				if knownStructs[n] == "" && alias[n] == "" && sameTypes(found(st), knownFields(knownStructs[m]), n, m) {
					cand = append(cand, n)
				}
			}
			done := false
			for _, a := range alias {
				done = done || a == m
			}
			if len(cand) == 1 && !done {
				alias[cand[0]] = m
				rename[scope.Lookup(cand[0])] = m
			}
		}
	}
	// fields: in the order of their types
	for n, st := range structs {
		k := n
		if a := alias[n]; a != "" {
			k = a
		}
		if knownStructs[k] == "" {
			continue
		}
		have := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			have[st.Field(i).Name()] = true
		}
		known := map[string]bool{}
		gone := map[string][]string{}
		for _, f := range knownFields(knownStructs[k]) {
			known[f.name] = true
			if !have[f.name] {
				gone[f.typ] = append(gone[f.typ], f.name)
			}
		}
		if len(gone) == 0 {
			continue
		}
		fresh := map[string][]*types.Var{}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); !known[f.Name()] && f.Name() != "_" {
				t := typeOf(f.Type())
				fresh[t] = append(fresh[t], f)
			}
		}
		for t, l := range gone {
			if len(l) == len(fresh[t]) {
				for i, f := range fresh[t] {
					rename[f] = l[i]
				}
			}
		}
	}
	if len(rename) == 0 {
		return nil
	}
	type edit struct {
		off, n int
		s      string
	}
	edits := map[string][]edit{}
	for _, file := range pkg.Syntax {
		ast.Inspect(file, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			obj := pkg.TypesInfo.Defs[id]
			if obj == nil {
				obj = pkg.TypesInfo.Uses[id]
			}
			if s := rename[obj]; obj != nil && s != "" {
				p := pkg.Fset.Position(id.Pos())
				edits[p.Filename] = append(edits[p.Filename], edit{p.Offset, len(id.Name), s})
			}
			return true
		})
	}
	out := map[string][]byte{}
	for name, l := range edits {
		src, err := os.ReadFile(name)
		if err != nil {
			return nil
		}
		sort.Slice(l, func(i, j int) bool { return l[i].off > l[j].off })
		s := string(src)
		for _, e := range l {
			s = s[:e.off] + e.s + s[e.off+e.n:]
		}
		out[name] = []byte(s)
	}
	return out
}

// sameTypes: both lists have the same types, where type n stands for type m
func sameTypes(a, b []fieldDesc, n, m string) bool {
	if len(a) != len(b) {
		return false
	}
	cnt := map[string]int{}
	for _, f := range a {
		cnt[strings.ReplaceAll(f.typ, n, m)]++
	}
	for _, f := range b {
		cnt[f.typ]--
	}
	for _, c := range cnt {
		if c != 0 {
			return false
		}
	}
	return true
}
