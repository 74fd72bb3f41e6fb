package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrRes int

const (
	intrNone intrRes = iota
	intrDone
	intrEnd
)

// fatalCalls never return.
func fatalFn(name string) bool {
	switch name {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit", "runtime.Goexit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln",
		"(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln", "syscall.Exit", "builtin.panic":
		return true
	}
	return false
}

// pureFn: deterministic and without effects on analysed memory.
func pureFn(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "hash/fnv.",
		"github.com/go-ego/murmur."} {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "path/filepath.Walk")
		}
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "errors.New", "errors.Is", "bytes.Equal", "bytes.Compare",
		"bytes.HasPrefix", "bytes.Contains", "sort.SearchStrings", "sort.SearchInts", "reflect.TypeOf", "html.EscapeString", "errors.Unwrap", "bytes.NewReader",
		"bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
		return true
	}
	return false
}

// quietFn: no effect on analysed memory, but results may differ between calls.
func quietFn(name string) bool {
	if pureFn(name) {
		return true
	}
	for _, p := range []string{"log.", "(*log.Logger).", "time.", "(time.", "(*time.Timer).", "fmt.Print", "fmt.Fprint", "encoding/json.Marshal", "os.Getenv",
		"os.Stat", "os.IsNotExist", "os.MkdirAll", "os.Mkdir", "os.Getpid", "os.Getwd", "runtime.", "math/rand.", "(*sync.", "net/url.", "(net/url.",
		"os/exec.Command", "(*os/exec.Cmd).", "os.RemoveAll", "os.Remove", "os.Open", "os.Create", "reflect.ValueOf", "(reflect.", "crypto/", "encoding/hex.",
		"encoding/base64.", "io/ioutil.ReadFile", "io/ioutil.WriteFile", "(os.", "(*strings.", "(*os.", "unsafe."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// lockKeyOf names the class of a mutex location: the field or global holding
// it, or the struct that embeds it.
func lockKeyOf(loc *Term) string {
	switch loc.op {
	case OpFieldAddr:
		if st, ok := fieldAddrStruct(loc); ok {
			i := loc.obj.(int)
			if st.Field(i).Embedded() {
				return loc.aux[:strings.LastIndex(loc.aux, ".")]
			}
		}
		return loc.aux
	case OpGlobal:
		return loc.aux
	case OpAlloc:
		return "local:" + loc.aux
	}
	return "?" + loc.String()
}

func fieldAddrStruct(loc *Term) (*types.Struct, bool) {
	b := loc.args[0]
	if b.typ == nil {
		return nil, false
	}
	t := b.typ.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, ok := t.(*types.Struct)
	if !ok || loc.obj == nil {
		return nil, false
	}
	if loc.obj.(int) >= s.NumFields() {
		return nil, false
	}
	return s, true
}

func (e *Engine) intrinsic(st *State, ci *CallInfo) intrRes {
	name := ci.Name
	if fatalFn(name) {
		if e.Hooks.Fatal != nil {
			e.Hooks.Fatal(st, name, ci.Instr)
		}
		return intrEnd
	}
	if ci.Fn == nil || len(ci.Args) == 0 {
		return intrNone
	}
	var op string
	for _, p := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		if strings.HasPrefix(name, p) {
			op = strings.TrimPrefix(name, p)
		}
	}
	switch op {
	case "Lock", "RLock":
		key := lockKeyOf(ci.Args[0])
		w := op == "Lock"
		if e.Hooks.Lock != nil {
			e.Hooks.Lock(st, key, ci.Args[0], w, ci.Instr)
		}
		st.note(insPos(ci.Instr), op+" "+key)
		first := true
		for _, h := range st.locks {
			if h.key == key {
				first = false
			}
		}
		st.locks = append(append([]Held(nil), st.locks...), Held{key: key, lock: ci.Args[0], write: w, pos: insPos(ci.Instr)})
		if first {
			st.havocGuard(key, st.siteID(ci.Instr))
			if e.LockedFact != nil {
				e.LockedFact(st, key, ci.Args[0])
			}
		}
		return intrDone
	case "Unlock", "RUnlock":
		key := lockKeyOf(ci.Args[0])
		w := op == "Unlock"
		found := -1
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i].lock == ci.Args[0] && st.locks[i].write == w {
				found = i
				break
			}
		}
		if e.Hooks.Unlock != nil {
			e.Hooks.Unlock(st, key, ci.Args[0], w, found >= 0, ci.Instr)
		}
		st.note(insPos(ci.Instr), op+" "+key)
		if found >= 0 {
			st.locks = append(append([]Held(nil), st.locks[:found]...), st.locks[found+1:]...)
			if held, _ := st.holdsLock(key); !held {
				st.havocGuard(key, st.siteID(ci.Instr))
			}
		}
		return intrDone
	}
	return intrNone
}

// model gives results of well-known library functions.
func (e *Engine) model(st *State, ci *CallInfo) *Term {
	if ci.Fn == nil {
		return nil
	}
	id := st.siteID(ci.Instr)
	n := ci.Name
	switch {
	case strings.HasPrefix(n, "sync/atomic.Load"):
		return mk(OpHavoc, ci.Result, id+"/atomic")
	case strings.HasPrefix(n, "sync/atomic.Store"), strings.HasPrefix(n, "sync/atomic.Add"), strings.HasPrefix(n, "sync/atomic.Swap"), strings.HasPrefix(n, "sync/atomic.CompareAndSwap"):
		st.invalidate(st.classOf(ci.Args[0]), id, ci.Args[0])
		if ci.Result == nil {
			return mkNil()
		}
		return mk(OpHavoc, ci.Result, id+"/atomic")
	case n == "math.Min" || n == "math.Max":
		return nil
	}
	return nil
}

// callsIn lists every call instruction of a function.
func callsIn(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}
