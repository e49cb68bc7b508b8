package eng

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type effect int

const (
	effArgs effect = iota // may modify what the arguments refer to
	effPure               // result is a function of the arguments
	effNone               // no modification of memory of the module
	effAll                // may run other code of the module
)

var purePkgs = []string{"strings.", "path/filepath.", "path.", "strconv.", "unicode.", "unicode/utf8.", "regexp.QuoteMeta", "bytes.", "net/url.", "slices.", "math."}

var pureNames = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "errors.Is": true, "errors.Unwrap": true, "errors.As": false,
	"regexp.QuoteMeta": true, "regexp.MustCompile": true, "regexp.Compile": true,
	"(error).Error": true, "os.IsNotExist": true, "os.IsExist": true,
	"(*flag.FlagSet).Name": true, "flag.Arg": true, "flag.Args": true, "flag.NArg": true,
	"(os.FileMode).Perm": true, "(io/fs.FileMode).Perm": true, "(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).IsRegular": true,
	"(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).IsDir": true,
	"(*os.File).Name": true, "(*os.File).Fd": true,
}

var impureExceptions = map[string]bool{
	"bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "strings.NewReader": true, "strings.NewReplacer": false,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true,
	"strings.Map": true, "strings.FieldsFunc": true, "strings.TrimFunc": true, "strings.IndexFunc": true, "bytes.Map": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
}

func isPureName(n string) bool {
	if impureExceptions[n] {
		return false
	}
	if v, ok := pureNames[n]; ok {
		return v
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasPrefix(n, "(*regexp.Regexp).") {
		return n != "(*regexp.Regexp).Longest" && !strings.Contains(n, "Func")
	}
	return false
}

var noEffectPrefixes = []string{"log.", "fmt.", "(*log.Logger).", "os.Exit", "errors.", "encoding/json.Marshal", "(*encoding/json.Encoder)", "os.Remove", "os.Rename",
	"os.Open", "os.OpenFile", "os.Stat", "os.Lstat", "os.Chmod", "os.Mkdir", "os.Getenv", "os.Executable", "os.Getwd", "(*os/exec.Cmd).", "os/exec.Command", "os/exec.LookPath",
	"(*os.File).", "io/ioutil.TempFile", "os.CreateTemp", "(*os.ProcessState)", "(*bytes.Buffer).Len", "time.", "io/ioutil.WriteFile", "os.WriteFile", "os.Create",
	"(io.Closer).Close", "bufio.NewScanner", "bufio.NewReader", "(*bufio.Scanner).", "encoding/json.NewEncoder", "encoding/json.NewDecoder",
	"sync.", "(*sync.", "reflect.", "(reflect.", "regexp.", "net/rpc.NewClient", "io.WriteString", "(io.Writer).Write", "encoding/binary.Write", "os.Truncate"}

func effectOf(n string) effect {
	if isPureName(n) {
		return effPure
	}
	switch n {
	case "flag.Parse", "(*flag.FlagSet).Parse", "net/rpc.ServeCodec", "(*net/rpc.Server).ServeCodec", "net/rpc.ServeConn", "net/rpc.ServeRequest":
		return effAll
	case "(*os.File).Read", "(*os.File).ReadAt":
		return effArgs
	case "fmt.Sscanf", "fmt.Sscan", "fmt.Fscanf", "fmt.Fscan", "errors.As":
		return effArgs
	}
	for _, p := range noEffectPrefixes {
		if strings.HasPrefix(n, p) {
			return effNone
		}
	}
	return effArgs
}

func noCallback(n string) bool {
	return strings.HasPrefix(n, "flag.") || strings.HasPrefix(n, "(*flag.FlagSet)") || n == "net/rpc.RegisterName"
}

// std models library functions that matter for control flow.
func (r *runner) std(ev *CallEvent) ([]Outcome, bool) {
	e := r.e
	switch ev.Name {
	case "(*sync.Once).Do":
		f := ev.Args[1]
		s := ev.St
		if f.Kind == KClosure || f.Kind == KFunc {
			if len(f.Fn.Blocks) > 0 {
				// either it is executed now or it was earlier
				done := s.Clone()
				e.HavocAll(done, ev.SiteID+"!done")
				x := *ev
				x.Args = nil
				x.SiteID = ev.SiteID + "!once"
				outs := r.static(&x, f.Fn, f.Args)
				for i := range outs {
					outs[i].Res = nil
				}
				if e.OnceExact {
					return outs, true
				}
				return append(outs, Outcome{St: done}), true
			}
		}
		e.HavocAll(s, ev.SiteID)
		return []Outcome{{St: s}}, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return nil, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		if e.hooks != nil && e.hooks.OnPanic != nil {
			e.hooks.OnPanic(ev.St, ev.Pos)
		}
		return []Outcome{{St: ev.St, Panic: true}}, true
	}
	return nil, false
}

// FuncName is the full name of a function.
func FuncName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return f.String()
}
