package verifsim

import (
	"flag"
	"os"
	"strings"
)

var baseFlags []*flag.Flag

// RunCommand runs the main function of a command under test with the given
// arguments and environment, as a fresh process would see them.
func RunCommand(args []string, env map[string]string, main func()) {
	if baseFlags == nil {
		flag.CommandLine.VisitAll(func(f *flag.Flag) {
			baseFlags = append(baseFlags, f)
		})
	}
	fs := flag.NewFlagSet(args[0], flag.ExitOnError)
	fs.SetOutput(os.Stderr)
	for _, f := range baseFlags {
		fs.Var(f.Value, f.Name, f.Usage)
		switch f.Name {
		case "logtostderr", "stderrthreshold", "log_dir", "log_link", "log_backtrace_at", "vmodule", "alsologtostderr", "v", "logbuflevel", "log_buf_level":
		default:
			f.Value.Set(f.DefValue)
		}
	}
	flag.CommandLine = fs
	flag.Usage = func() {}
	os.Args = args
	var own []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "VERIF_") {
			own = append(own, kv)
		}
	}
	os.Clearenv()
	for _, kv := range own {
		k, v, _ := strings.Cut(kv, "=")
		os.Setenv(k, v)
	}
	os.Setenv("HOME", "/nonexistent-verif")
	os.Setenv("TMPDIR", "/nonexistent-verif")
	for k, v := range env {
		os.Setenv(k, v)
	}
	main()
}
