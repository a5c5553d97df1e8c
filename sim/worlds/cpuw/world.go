// Package cpuw simulates processors and systems of all kinds on which programs start and look at what they have.
package cpuw

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/sim/harness"
	simos "verif/sim/simlib/os"
	"verif/sim/simrt"
	"verif/sim/zzproc"
)

const prop = "D11"

func pick[T any](W *simrt.Stream, v ...T) T { return v[W.N(len(v))] }

type lcg uint64

func (l *lcg) next() uint32 {
	*l = *l*6364136223846793005 + 1442695040888963407
	return uint32(*l >> 32)
}

// machine is a processor with a system on it.
type machine struct {
	s    *simrt.Sim
	sys  *zzproc.System
	os   string
	arch string
	junk lcg

	// x86
	max, ext         uint32
	ecx1, edx1, ebx7 uint32
	xcr0             uint32
	brand            []byte

	// ARM
	hwcap   uint
	midr    uint64
	isar0   uint64
	sysctl  map[string]int32
	cpuinfo string
	neon    bool
	pi1     bool
}

func (m *machine) group() string {
	switch m.arch {
	case "arm":
		return "ARM"
	case "arm64":
		return "ARM64"
	}
	return "X86"
}

var x86ecx = map[string]uint{"SSE3": 0, "PCLMULQDQ": 1, "SSSE3": 9, "FMA": 12, "SSE41": 19, "SSE42": 20, "POPCNT": 23, "AES": 25, "OSXSAVE": 27, "AVX": 28}
var x86ebx = map[string]uint{"BMI1": 3, "AVX2": 5, "BMI2": 8, "ERMS": 9, "ADX": 19}

// has is what the processor has and the system lets programs use.
func (m *machine) has() map[string]bool {
	f := map[string]bool{}
	bit := func(v uint64, n uint) bool { return v>>n&1 != 0 }
	switch m.arch {
	case "amd64", "386":
		f["SSE2"] = m.max >= 1 && bit(uint64(m.edx1), 26)
		for n, b := range x86ecx {
			f[n] = m.max >= 1 && bit(uint64(m.ecx1), b)
		}
		for n, b := range x86ebx {
			f[n] = m.max >= 7 && bit(uint64(m.ebx7), b)
		}
		ymm := f["OSXSAVE"] && m.xcr0&6 == 6
		f["FMA"] = f["FMA"] && f["OSXSAVE"]
		f["AVX"] = f["AVX"] && ymm
		f["AVX2"] = f["AVX2"] && ymm
	case "arm":
		f["VFPv4"], f["IDIVA"] = bit(uint64(m.hwcap), 16), bit(uint64(m.hwcap), 17)
	case "arm64":
		for _, n := range []string{"AES", "PMULL", "SHA1", "SHA2", "CRC32", "ATOMICS", "CPUID"} {
			f[n] = false
		}
		n1, zeus := false, false
		switch m.os {
		case "linux", "android":
			for n, b := range map[string]uint{"AES": 3, "PMULL": 4, "SHA1": 5, "SHA2": 6, "CRC32": 7, "ATOMICS": 8, "CPUID": 11} {
				f[n] = bit(uint64(m.hwcap), b)
			}
			if m.os == "android" { // whose kernels are wrong about some processors
				f["ATOMICS"] = false
			}
			arm := m.midr>>24&255 == 'A'
			n1 = f["CPUID"] && arm && m.midr>>4&0xfff == 0xd0c
			zeus = f["CPUID"] && arm && m.midr>>4&0xfff == 0xd40
		case "freebsd":
			q := func(at uint) uint64 { return m.isar0 >> at & 15 }
			f["AES"], f["PMULL"] = q(4) == 1 || q(4) == 2, q(4) == 2
			f["SHA1"], f["SHA2"] = q(8) == 1, q(12) == 1 || q(12) == 2
			f["CRC32"], f["ATOMICS"] = q(16) == 1, q(20) == 2
		case "darwin":
			for _, n := range []string{"AES", "PMULL", "SHA1", "SHA2"} { // every such processor has these
				f[n] = true
			}
			f["CRC32"], f["ATOMICS"] = m.sysctl["hw.optional.armv8_crc32"] > 0, m.sysctl["hw.optional.armv8_1_atomics"] > 0
		}
		f["IsNeoverseN1"], f["IsZeus"] = n1, zeus
	}
	return f
}

// option is the name that switches a feature off.
func option(f string) string {
	if strings.HasPrefix(f, "Is") {
		return "is" + f[2:]
	}
	return strings.ToLower(f)
}

// options says what is left of the features, and whether there is something to complain about.
func (m *machine) options(env string, has map[string]bool) (map[string]bool, bool) {
	wish := map[string]bool{} // last wins
	names := map[string]string{}
	for f := range has {
		if f != "OSXSAVE" { // the system's
			names[option(f)] = f
		}
	}
	must := func(f string) bool { return m.arch == "amd64" && f == "SSE2" }
	warn := false
	for _, field := range strings.Split(env, ",") {
		rest, ok := strings.CutPrefix(field, "cpu.")
		if !ok {
			continue
		}
		key, value, ok := strings.Cut(rest, "=")
		if !ok || value != "on" && value != "off" {
			warn = true
			continue
		}
		if key == "all" {
			for _, f := range names {
				wish[f] = value == "on" || must(f)
			}
		} else if f := names[key]; f != "" {
			wish[f] = value == "on"
		} else {
			warn = true
		}
	}
	out := map[string]bool{}
	for f, v := range has {
		on, said := wish[f]
		out[f] = v && (!said || on || must(f))
		if said && (on && !v || !on && must(f)) {
			warn = true
		}
	}
	return out, warn
}

func (m *machine) junk32() uint32 {
	if v := m.junk.next(); v&3 != 0 {
		return m.junk.next()
	}
	return 0
}

func (m *machine) cpuid(a, c uint32) (uint32, uint32, uint32, uint32) {
	m.s.Probe("cpuid")
	w := func(i int) uint32 {
		return uint32(m.brand[i]) | uint32(m.brand[i+1])<<8 | uint32(m.brand[i+2])<<16 | uint32(m.brand[i+3])<<24
	}
	switch {
	case a == 0:
		return m.max, 0x756e6547, 0x6c65746e, 0x49656e69
	case a == 0x80000000:
		return m.ext, 0, 0, 0
	case a >= 0x80000002 && a <= 0x80000004 && a <= m.ext:
		i := int(a-0x80000002) * 16
		return w(i), w(i + 4), w(i + 8), w(i + 12)
	case a == 1 && m.max >= 1:
		return m.junk32(), m.junk32(), m.ecx1, m.edx1
	case a == 7 && m.max >= 7 && c == 0:
		return 1, m.ebx7, m.junk32(), m.junk32()
	}
	m.s.Probe("cpuid of a leaf that is not there")
	return m.junk32(), m.junk32(), m.junk32(), m.junk32()
}

func (m *machine) xgetbv() (uint32, uint32) {
	if m.max < 1 || m.ecx1>>27&1 == 0 {
		m.s.Violate(prop, "illegal", "%s: XGETBV on a processor whose system does not use XSAVE", m.sys.Sys)
		return m.junk32(), 0
	}
	return m.xcr0, 0
}

func (m *machine) sysctlbyname(name []byte) (int32, int32) {
	n, z, _ := strings.Cut(string(name), "\x00")
	if len(name) == 0 || name[len(name)-1] != 0 || z != "" {
		m.s.Violate(prop, "illegal", "%s: the name %q is not terminated", m.sys.Sys, name)
	}
	v, ok := m.sysctl[n]
	if !ok || v < 0 {
		m.s.Fault("sysctl fails")
		return -1, int32(m.junk32() >> 1)
	}
	return 0, v
}

// sparse is a word with few, many, or any bits.
func sparse(W *simrt.Stream) uint64 {
	v := uint64(W.U32())<<33 ^ uint64(W.U32())<<11 ^ uint64(W.U32())
	switch W.N(4) {
	case 0:
		return v
	case 1:
		return v & (v >> 7)
	case 2:
		return v | v>>5
	}
	return ^uint64(0)
}

func genMachine(s *simrt.Sim, W *simrt.Stream) *machine {
	m := &machine{s: s, sys: zzproc.Systems[W.N(len(zzproc.Systems))], junk: lcg(W.U32())}
	m.os, m.arch, _ = strings.Cut(m.sys.Sys, "/")
	switch m.arch {
	case "amd64", "386":
		m.max = pick[uint32](W, 0xd, 7, 6, 1, 0x16, 2, 5, 8)
		if m.arch == "386" && W.N(6) == 0 {
			m.max = 0
		}
		m.ext = pick[uint32](W, 0x80000008, 0x80000004, 0x80000003, 0x80000001, 0, 0x8000001f, 0x80000002)
		m.ecx1, m.edx1, m.ebx7 = uint32(sparse(W)), uint32(sparse(W)), uint32(sparse(W))
		if m.arch == "amd64" { // has it by definition
			m.edx1 |= 1 << 26
		}
		if W.N(2) == 0 {
			m.ecx1 |= 1<<27 | 1<<28
			m.ebx7 |= 1 << 5
		}
		m.xcr0 = pick[uint32](W, 7, 3, 1, 5, 0xe7, 2, 4, 0, 6)
		if m.ecx1>>27&1 == 0 {
			m.xcr0 = 0
			s.Fault("no XSAVE")
		} else if m.xcr0&6 != 6 {
			s.Fault("system does not save vector registers")
		}
		m.brand = make([]byte, 48)
		b := strings.Repeat(" ", pick(W, 0, 6, 1, 48, 20)) + pick(W, "Intel(R) Atom(TM) CPU N270 @ 1.60GHz", "AMD Ryzen", "", "x", "Genuine Intel(R)  0000 @ 2.00GHz with more than fits")
		n := copy(m.brand, b)
		for i := n + 1; i < 48; i++ { // whatever follows the end
			m.brand[i] = byte(m.junk32())
		}
	case "arm":
		m.hwcap = uint(uint32(sparse(W)))
		m.genInfo(W)
	case "arm64":
		m.hwcap = uint(sparse(W))
		m.midr = uint64(pick[uint32](W, 'A', 'B', 'A', 0x51, 'a'))<<24 | uint64(pick[uint32](W, 0xd0c, 0xd40, 0xd03, 0x0c, 0xd4, 0xfff, 0xd0c^1<<uint(W.N(12)), 0xd40^1<<uint(W.N(12))))<<4 | uint64(m.junk32())&0xff00000f | uint64(W.N(16))<<20
		m.midr &= 1<<32 - 1
		m.midr = m.midr&^(0xff<<24) | uint64(pick[uint32](W, 'A', 'A', 'B', 0x51, 'a'))<<24
		for at := uint(0); at < 64; at += 4 {
			m.isar0 |= uint64(pick(W, 1, 2, 0, 3, 15, W.N(16))) << at
		}
		m.sysctl = map[string]int32{}
		for _, n := range []string{"hw.optional.armv8_1_atomics", "hw.optional.armv8_crc32", "hw.optional.floatingpoint", "hw.optional.armv8_2_fhm"} {
			if v := pick[int32](W, 1, 0, -1, 1); v >= 0 {
				m.sysctl[n] = v
			}
		}
	}
	return m
}

// genInfo writes the /proc/cpuinfo of an ARM processor.
func (m *machine) genInfo(W *simrt.Stream) {
	var b strings.Builder
	feats := []string{"half", "thumb", "fastmult", "vfp", "edsp", "vfpv3", "tls"}
	hw := pick(W, "BCM2835", "BCM2709", "ODROID-XU3", "tegra_seaboard", "Freescale i.MX6 Quad/DualLite (Device Tree)", "neon evaluation board", "asimd")
	cores := pick(W, 1, 4, 2, 8)
	switch W.N(3) {
	case 0: // Raspberry Pi 1
		hw, cores, m.pi1 = "BCM2708", 1, true
		feats = []string{"swp", "half", "thumb", "fastmult", "vfp", "edsp", "java", "tls"}
	case 1:
		m.neon = true
		at := W.N(len(feats) + 1)
		feats = append(feats[:at:at], append([]string{pick(W, "neon", "asimd", "neon")}, feats[at:]...)...)
		if W.N(4) == 0 {
			hw, cores, m.pi1 = "BCM2708", 1, true // says a kernel that lies about it
		}
	}
	f := "Features\t: " + strings.Join(feats, " ") + pick(W, " ", "") + "\n"
	ids := "CPU implementer\t: 0x41\nCPU architecture: 7\nCPU variant\t: 0x0\nCPU part\t: 0xb76\nCPU revision\t: 7\n"
	if W.N(2) == 0 {
		for i := 0; i < cores; i++ {
			fmt.Fprintf(&b, "processor\t: %d\nmodel name\t: ARMv%d Processor rev %d (v7l)%s\nBogoMIPS\t: 38.40\n%s%s\n", i, 6+W.N(3), W.N(10), pick(W, "", " with neon", " BCM2708"), f, ids)
		}
	} else {
		b.WriteString("Processor\t: ARMv7 Processor rev 10 (v7l)\n")
		for i := 0; i < cores; i++ {
			fmt.Fprintf(&b, "processor\t: %d\nBogoMIPS\t: 790.52\n\n", i)
		}
		for k := pick(W, 0, 0, 3, 20); k > 0; k-- {
			fmt.Fprintf(&b, "cache %d size\t: %d KB, 4-way, write back, lines of 32 bytes\n", k, 1<<W.N(9))
		}
		b.WriteString(f + ids + "\n")
	}
	fmt.Fprintf(&b, "Hardware\t: %s\nRevision\t: %s\nSerial\t\t: 00000000c1b5a7e3\n", hw, pick(W, "000e", "neon", "BCM2708"))
	m.cpuinfo = b.String()
}

func genEnv(W *simrt.Stream, has map[string]bool) string {
	var names []string
	for f := range has {
		names = append(names, option(f))
	}
	sort.Strings(names)
	var fs []string
	for k := pick(W, 0, 1, 2, 3, 6, 20); k > 0; k-- {
		n := names[W.N(len(names))]
		fs = append(fs, pick(W, "cpu."+n+"=off", "cpu."+n+"=on", "cpu.all=off", "cpu."+n+"=off", "gctrace=1", "cpu."+n, "cpu."+n+"=", "cpu."+n+"=OFF", "cpu.sse5=off",
			"cpu.", "cpu", "", "cpu.=off", "cpu."+n+"=off=on", " cpu."+n+"=off", "cpu."+strings.ToUpper(n)+"=off", "CPU."+n+"=off", "cpu.all=on", "cpu"+n+"=off", "xcpu."+n+"=off", "cpu.al=off",
			"cpu."+n[:1+W.N(len(n))]+"=off", "cpu."+n[W.N(len(n)):]+"=off", "cpu."+n+"2=off", "cpu."+n+"off", "cpu."+n+"=o", "cpu."+n+"=of", "cpu."+n+"=offf", "cpu."+n+" =off", "cpu."+n+"= off", "cpu.all", "cpu.all=yes", "cpu.all=", "cpu.osxsave=off", "cpu."+n+"=off cpu.all=off", "cpu.ALL=off"))
	}
	return strings.Join(fs, ",")
}

// set puts a simulation in the place of a function.
func set(s *simrt.Sim, p *zzproc.Package, name string, f any) {
	v, ok := p.Extern[name]
	if !ok {
		return
	}
	d := reflect.ValueOf(v).Elem()
	if !reflect.TypeOf(f).ConvertibleTo(d.Type()) {
		s.Probe("not simulated: " + name)
		return
	}
	d.Set(reflect.ValueOf(f).Convert(d.Type()))
}

func boolVar(s *simrt.Sim, p *zzproc.Package, name string) bool {
	v, ok := p.Vars[name].(*bool)
	if !ok {
		s.Probe("not simulated: no " + name)
		return false
	}
	return *v
}

func word(b bool) string {
	if b {
		return "reported"
	}
	return "not reported"
}

// start is a program's start on the machine.
func (m *machine) start(env string, look bool) {
	s := m.s
	c := m.sys.CPU
	has := m.has()
	s.Quiet(func() { c.Reset() })
	set(s, c, "cpuid", m.cpuid)
	set(s, c, "xgetbv", m.xgetbv)
	set(s, c, "getisar0", func() uint64 { return m.isar0 })
	set(s, c, "getMIDR", func() uint64 {
		if m.hwcap>>11&1 == 0 {
			s.Violate(prop, "illegal", "%s: reads the processor's identification where the kernel does not emulate that", m.sys.Sys)
		}
		return m.midr
	})
	set(s, c, "getsysctlbyname", m.sysctlbyname)
	if v, ok := c.Vars["HWCap"].(*uint); ok {
		*v = m.hwcap
	}
	final := map[string]bool{}
	if look {
		init, ok := c.Funcs["Initialize"].(func(string))
		if !ok {
			s.Probe("not simulated: no Initialize")
			return
		}
		g := simrt.Current()
		said := len(g.Proc.Stderr)
		init(env)
		var warn bool
		final, warn = m.options(env, has)
		said = len(g.Proc.Stderr) - said
		m.compare(c, final, env)
		if warn != (said > 0) {
			s.Violate(prop, "warning", "%s with options %q: %d bytes of warnings", m.sys.Sys, env, said)
		}
		if name, ok := c.Funcs["Name"].(func() string); ok && m.group() == "X86" && m.max >= 1 {
			want := ""
			if m.ext >= 0x80000004 {
				want = strings.TrimLeft(string(m.brand), " ")
				want, _, _ = strings.Cut(want, "\x00")
			}
			if got := name(); got != want {
				s.Violate(prop, "name", "%s: a processor called %q calls itself %q", m.sys.Sys, want, got)
			}
		}
	}
	n := uint64(0)
	for _, f := range []string{"SSE2", "SSE41", "AVX", "AVX2", "OSXSAVE", "FMA", "AES", "ATOMICS", "VFPv4"} {
		if n <<= 1; final[f] {
			n |= 1
		}
	}
	s.State(uint64(m.arch[len(m.arch)-1]), uint64(m.os[0]), n, uint64(min(m.max, 8)), uint64(len(env)))
	s.Event("started", m.sys.Sys, n, len(env))
	if d := m.sys.DSP; d != nil && m.arch == "amd64" {
		d.Reset()
		if !look {
			final = has // nothing has looked, nothing must be used that is not there
		}
		for v, f := range map[string]string{"useSSE2": "SSE2", "useSSE4": "SSE41", "useAVX2": "AVX2"} {
			if boolVar(s, d, v) && !final[f] {
				s.ViolateFirst(prop, "uses", "%s: the kernels use %s, which the processor or its system does not have", m.sys.Sys, f)
			}
		}
	}
	for _, v := range has {
		if v && look {
			s.Probe("nontrivial")
			break
		}
	}
}

func (m *machine) compare(c *zzproc.Package, want map[string]bool, env string) {
	p := c.Vars[m.group()]
	if p == nil {
		m.s.Probe("not simulated: no " + m.group())
		return
	}
	v := reflect.ValueOf(p).Elem()
	var names []string
	for f := range want {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		n := f
		if !strings.HasPrefix(f, "Is") {
			n = "Has" + f
		}
		b := v.FieldByName(n)
		if !b.IsValid() || b.Kind() != reflect.Bool {
			m.s.Probe("not simulated: no " + n)
			continue
		}
		if b.Bool() != want[f] {
			m.s.Violate(prop, "feature", "%s with options %q: %s is %s (processor: %v)", m.sys.Sys, env, f, word(b.Bool()), m.has()[f])
		}
	}
}

// startARM is the start of a program whose detection reads a file.
func (m *machine) startARM() {
	s := m.s
	W, F := s.Src.W, s.Src.F
	d := m.sys.DSP
	disk := simos.DiskOf()
	path := "/proc/cpuinfo"
	disk.Files, disk.Env = map[string]*simos.Inode{path: {Data: []byte(m.cpuinfo)}}, map[string]string{}
	vector := pick(W, "-", "-", "-", "1", "0", "true", "false", "", "yes", "2", "T", "f", "tRUE")
	if vector != "-" {
		disk.Env["ARMVECTOR"] = vector
	}
	said, forced := map[string]bool{"1": true, "t": true, "T": true, "TRUE": true, "true": true, "True": true, "0": false, "f": false, "F": false, "FALSE": false, "false": false, "False": false}[vector], false
	switch vector {
	case "1", "0", "true", "false", "T", "f":
		forced = true
	}
	failed := false
	style := F.N(4)
	at, got := -1, 0
	switch F.N(8) {
	case 6:
		at = F.N(len(m.cpuinfo) + 1)
	case 7:
		failed = true
		if F.N(2) == 0 {
			s.Fault("no cpuinfo")
			delete(disk.Files, path)
		} else {
			s.Fault("open fails")
			disk.Fail = func(op, name string) error {
				if op == "open" {
					return errors.New("permission denied")
				}
				return nil
			}
		}
	}
	disk.ReadN = func(_ string, avail, asked int) (int, error) {
		if at >= 0 && got >= at {
			s.Fault("read error")
			failed = true
			return 0, errors.New("input/output error")
		}
		n := asked
		switch style {
		case 1:
			n = 1 + F.N(asked)
		case 2:
			n = 1 + F.N(min(asked, 40))
		}
		if n < min(asked, avail) {
			s.Fault("short read")
		}
		if F.Chance(1, 30) {
			s.Fault("late read")
			simrt.Sleep(int64(1+F.N(1000)) * 1000)
		}
		got += min(n, avail)
		return n, nil
	}
	open := disk.Open
	d.Reset()
	disk.ReadN, disk.Fail = nil, nil
	neon, vec := boolVar(s, d, "HaveNEON"), boolVar(s, d, "UseVector")
	s.Event("ARM", neon, vec, failed)
	s.State(1, b2u(neon), b2u(vec), b2u(failed), b2u(forced), uint64(style))
	what := fmt.Sprintf("ARM, features with NEON %v, Raspberry Pi 1 %v, ARMVECTOR %q", m.neon, m.pi1, vector)
	if disk.Open != open {
		s.Violate(prop, "leak", "%s: %d files left open", what, disk.Open-open)
	}
	wantVec := m.pi1 && !m.neon
	if forced {
		wantVec = said
	}
	if failed {
		if neon && !m.neon {
			s.Violate(prop, "uses", "%s: NEON is used", what)
		}
		if vec && !(m.pi1 && !m.neon) && !(forced && said) {
			s.Violate(prop, "uses", "%s: vectors are used", what)
		}
		return
	}
	s.Probe("nontrivial")
	if neon != m.neon {
		s.Violate(prop, "feature", "%s: NEON is %s", what, word(neon))
	}
	if vec != wantVec {
		s.Violate(prop, "feature", "%s: vectors are %s", what, word(vec))
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func root(s *simrt.Sim) {
	W := s.Src.W
	app := &simrt.Proc{Name: "program", IP: "10.1.0.1"}
	s.Values["app"] = app
	m := genMachine(s, W)
	s.Spawn(app, "main", func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case simrt.Missing:
				s.Probe("not simulated: " + x.Name)
				simrt.Exit(0)
			default:
				panic(x)
			}
		}()
		for k := 1 + W.N(3); k > 0; k-- {
			if m.sys.DSP != nil && m.arch == "arm" && W.N(2) == 0 {
				m.startARM()
				continue
			}
			m.start(genEnv(W, m.has()), W.N(8) > 0)
		}
		simrt.Exit(0)
	})
	for k := 0; !app.Dead && s.LiveTasks(app) > 0; k++ {
		if k > 10_000 {
			s.Violate(prop, "hang", "%s: the program does not start", m.sys.Sys)
			return
		}
		simrt.Sleep(1e6)
	}
}

// World decides D11.
func World() *harness.World {
	return &harness.World{
		Prop: prop,
		Config: func(src *simrt.Src) simrt.Config {
			return simrt.Config{MaxSteps: 50_000_000}
		},
		Root: root,
		After: func(s *simrt.Sim) {
			switch s.Status {
			case "deadlock":
				s.Violate(prop, "stuck", "nothing can proceed any more")
			case "steps":
				s.Violate(prop, "livelock", "detection does not come to an end")
			}
			if p, ok := s.Values["app"].(*simrt.Proc); ok && p.Crashed {
				s.ViolateFirst(prop, "panic", "%s", p.CrashMsg)
			}
		},
		Real:   []string{"dsp/internal/cpu for linux/amd64, linux/386, linux/arm, linux, android, freebsd, darwin and windows on arm64 (Go files)", "package dsp's initialisation for amd64 and ARM"},
		Stub:   []string{"CPUID, XGETBV, MIDR, ID_AA64ISAR0, hardware capabilities, sysctl", "/proc/cpuinfo and the environment (simulated file system)"},
		Rule:   "a program looked at a processor that has some feature, or read the processor description of an ARM to its end",
		State:  "system, features reported, highest leaf, length of the options; NEON, vectors, failed read",
		Assume: []string{"processors describe themselves as their manuals say; every amd64 processor has SSE2"},
		Quick:  15, Thorough: 180,
	}
}
