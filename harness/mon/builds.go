package mon

func init() {
	m := &Monitor{
		ID: "C30", Quick: 60, Thorough: 12, CPU: 60,
		Rule: "cases of every other monitor, run and judged in other builds of the same code: 32-bit (GOARCH=386), the newest and the oldest Go version that go.mod admits, and without compiler optimisation but with pointer checks; non-trivial: as the monitor concerned says",
		Need: []string{"build_386", "build_newest", "build_oldest", "build_unoptimised"},
		Share: []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
			"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"},
	}
	for _, id := range m.Share {
		m.Need = append(m.Need, "cases_"+id)
	}
	register(m)
}
