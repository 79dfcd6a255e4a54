package main

type job struct {
	scen string
	runs int // per quick check
}

type spec struct {
	level  string
	jobs   []job
	race   bool
	real   []string
	stub   []string
	assume []string
}

var levelFiles = map[string][]string{
	"F": {"core.go", "watch.go", "refcrypt.go", "vtree.go", "simfs.go", "judge.go", "lvl_tree.go"},
	"R": {"core.go", "watch.go", "refcrypt.go", "vtree.go", "simfs.go", "lvl_req.go"},
	"C": {"core.go", "lvl_cache.go"},
	"B": {"core.go", "watch.go", "refcrypt.go", "vtree.go", "simfs.go", "judge.go", "simnet.go", "sftpd.go", "lvl_back.go"},
	"K": {"core.go", "refcrypt.go", "lvl_enc.go"},
	"D": {"core.go", "watch.go", "refcrypt.go", "simdisk.go", "lvl_disk.go"},
	"S": {"core.go", "watch.go", "refcrypt.go", "vtree.go", "simfs.go", "judge.go", "simnet.go", "sftpd.go", "simdisk.go", "proxyenv.go", "lvl_e2e.go", "lvl_start.go"},
	"E": {"core.go", "watch.go", "refcrypt.go", "vtree.go", "simfs.go", "judge.go", "simnet.go", "sftpd.go", "proxyenv.go", "lvl_e2e.go"},
}

var commonAssumptions = []string{
	"a run is sequentially consistent: goroutines switch only at preemption points (every statement of the code under test, every channel, select, mutex and timer operation); data races are the subject of C14",
	"the patched Go runtime (scheduler pick, clock, randomness, select order) schedules only orders that the real one could produce",
	"the reference implementation of the gocryptfs on-disk format in sim/refcrypt.go is right",
}

var (
	realF = []string{"handlers (DecryptHandler)", "filetree", "requester", "gocrypt/*"}
	stubF = []string{"remote store: simulated behind the proxy's own FSAccessor interface", "SSH and SFTP: the handlers are called directly", "clock, scheduler, randomness: simulated"}
)

var (
	realB = []string{"backend (connection pool, provider)", "golang.org/x/crypto/ssh client", "github.com/pkg/sftp client"}
	stubB = []string{"network: simulated TCP behind net.Dial and net.Listen", "remote host: x/crypto SSH server with an SFTP server written for the simulator", "callers: simulated goroutines", "clock, scheduler, randomness: simulated"}
)

var (
	realE  = []string{"the whole proxy from its main function: config, backend, handlers, filetree, requester, gocrypt/*", "golang.org/x/crypto/ssh and github.com/pkg/sftp on both sides of the proxy"}
	stubE  = []string{"network: simulated TCP behind net.Dial and net.Listen", "remote host: x/crypto SSH server with an SFTP server written for the simulator", "clients: simulated goroutines with the x/crypto SSH client", "clock, scheduler, randomness: simulated", "local files: a scratch directory of the run"}
	realFE = append(append([]string{}, realF...), realE...)
	stubFE = append(append([]string{}, stubF...), stubE...)
	realBE = append(append([]string{}, realB...), realE...)
	stubBE = append(append([]string{}, stubB...), stubE...)
)

var specs = map[string]*spec{
	"C01": {level: "exploration", jobs: []job{{"F/clean", 4000}, {"F/errs", 3000}, {"F/slow", 2000}, {"E/clean", 400}, {"E/errs", 200}}, real: realFE, stub: stubFE},
	"C02": {level: "exploration", jobs: []job{{"F/clean", 3000}, {"F/errs", 3000}, {"F/slow", 3000}, {"E/clean", 400}, {"E/errs", 200}}, real: realFE, stub: stubFE},
	"C03": {level: "exploration", jobs: []job{{"F/clean", 3000}, {"F/errs", 3000}, {"F/slow", 2000}, {"E/clean", 400}, {"E/errs", 200}}, real: realFE, stub: stubFE},
	"C04": {level: "exploration", jobs: []job{{"F/corrupt", 9000}}, real: realF, stub: stubF},
	"C05": {level: "exploration", jobs: []job{{"R/clean", 4000}, {"R/errs", 8000}, {"R/slow", 4000}, {"R/clear", 2000}, {"F/errs", 2000}, {"F/clean", 1500}, {"E/errs", 300}}, real: realFE, stub: stubFE},
	"C06": {level: "exploration", jobs: []job{{"R/errs", 14000}, {"F/errs", 5000}, {"E/errs", 500}}, real: realFE, stub: stubFE},
	"C07": {level: "exploration", jobs: []job{{"R/slow", 14000}, {"F/slow", 5000}, {"E/slow", 500}}, real: realFE, stub: stubFE},
	"C08": {level: "exploration", jobs: []job{{"B/pool", 3000}, {"B/cut", 1500}, {"B/outage", 1500}, {"E/clean", 200}, {"E/outage", 300}}, real: realBE, stub: stubBE},
	"C09": {level: "exploration", jobs: []job{{"B/cut", 5000}, {"B/outage", 1000}, {"E/outage", 400}}, real: realBE, stub: stubBE},
	"C10": {level: "exploration", jobs: []job{{"B/outage", 4500}, {"B/cut", 1500}, {"E/outage", 500}}, real: realBE, stub: stubBE},
	"C11": {level: "exploration", jobs: []job{{"F/mut", 4000}, {"E/mut", 800}}, real: realFE, stub: stubFE},
	"C12": {level: "exploration", jobs: []job{{"F/paths", 8000}, {"E/paths", 600}, {"E/errs", 200}, {"E/outage", 200}}, real: realFE, stub: stubFE},
	"C13": {level: "exploration", jobs: []job{{"F/hostile", 8000}, {"E/rude", 1200}, {"E/malformed", 120}, {"E/auth", 300}}, real: realFE, stub: stubFE},
	"C16": {level: "exploration", jobs: []job{{"E/auth", 2200}, {"E/rude", 300}, {"S/hosts", 500}}, real: realE, stub: stubE},
	"C17": {level: "exploration", jobs: []job{{"S/bad", 5000}, {"S/disk", 2500}, {"S/remote", 1500}}, real: realE, stub: append([]string{"local disk: every system call on the run's files goes through the simulated disk, which fails and shortens it"}, stubE...)},
	"C18": {level: "exploration", jobs: []job{{"D/crash", 2000}, {"D/errs", 2000}}, real: []string{"gocrypt/configfile and the crypto below it", "os package down to the system calls"}, stub: []string{"disk: every system call on the files goes through the simulated disk, which fails, shortens and records it; crash states are built from the record", "scheduler, randomness (/dev/random included): simulated"}},
	"C19": {level: "exploration", jobs: []job{{"K/enc", 12000}, {"K/rand", 12000}}, real: []string{"gocrypt/contentenc", "gocrypt/cryptocore with its randomness prefetcher", "gocrypt/siv_aead"}, stub: []string{"callers: simulated goroutines", "randomness source: simulated; it fails, returns short counts and stalls", "scheduler, clock: simulated"}},
	"C14": {level: "exploration", race: true, jobs: []job{
		{"F/clean", 100}, {"F/errs", 100}, {"F/slow", 100}, {"F/corrupt", 60}, {"F/hostile", 60}, {"F/mut", 60},
		{"R/clean", 200}, {"R/errs", 200}, {"R/slow", 200}, {"R/clear", 200}, {"C/lru", 200}, {"K/enc", 300}, {"K/rand", 100},
		{"B/pool", 120}, {"B/cut", 80}, {"B/outage", 120},
		{"E/clean", 70}, {"E/errs", 50}, {"E/slow", 50}, {"E/outage", 70}, {"E/mut", 50}, {"E/rude", 50}, {"E/auth", 50},
	}, real: append(append(append([]string{}, realF...), realB...), realE...), stub: append(append(append([]string{}, stubF...), stubB...), stubE...), assume: []string{"the Go race detector keeps the last four accesses of a memory word, so a race between distant accesses can be missed in one run; the harness is not instrumented, so races between the proxy and its simulated callers are not seen"}},
	"C21": {level: "exploration", jobs: []job{{"E/clean", 300}, {"E/rude", 700}, {"E/auth", 600}, {"E/outage", 300}, {"E/slow", 200}, {"E/mut", 200}}, real: realE, stub: stubE},
	"C22": {level: "exploration", jobs: []job{{"E/auth", 700}, {"E/rude", 300}, {"E/errs", 200}, {"E/outage", 300}, {"E/mut", 150}, {"E/paths", 100}, {"S/bad", 1500}, {"S/disk", 800}, {"S/remote", 600}, {"F/corrupt", 1500}, {"F/hostile", 1000}, {"F/slow", 500}, {"D/errs", 600}, {"D/crash", 300}}, real: realFE, stub: append([]string{"local disk (start-up): every system call on the run's files goes through the simulated disk, which fails and shortens it"}, stubFE...), assume: []string{"a secret is recognised when it is written as it is or in one of the ways Go programs print bytes (hex, quoted, decimal, base64); one that is transformed otherwise first is not seen"}},
	"C15": {level: "exploration", jobs: []job{{"C/lru", 25000}}, real: []string{"filetree.FastCache"}, stub: []string{"callers: simulated goroutines", "scheduler: simulated"}},
}
