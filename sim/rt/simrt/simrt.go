// Package simrt is the run-time part of the simulator that is linked into the
// code under test. The build step inserts a call of Y before every statement of
// asn1go; Y counts simulated steps, ends executions that exceed their step
// budget, and is the point where the simulated scheduler may switch tasks.
//
// Nothing here draws random numbers: every decision comes from the callbacks
// the harness installs, which read the choice tape of the run.
package simrt

// Overrun is the panic value that ends an execution which used up its budget.
type Overrun struct{ Steps uint64 }

func (Overrun) Error() string { return "simulation step budget exceeded" }

var (
	steps  uint64
	limit  uint64
	over   bool
	active *Sched

	// OnOverrun, if set, is called instead of panicking.
	OnOverrun func(steps uint64)
)

// Begin resets the step counter and sets the budget (0: unlimited).
//
//go:norace
func Begin(budget uint64) {
	steps, limit, over = 0, budget, false
}

// End switches the budget off and returns the steps used and whether the budget was exceeded.
//
//go:norace
func End() (uint64, bool) {
	s, o := steps, over
	limit, over = 0, false
	return s, o
}

// Steps returns the number of steps since Begin.
//
//go:norace
func Steps() uint64 { return steps }

// Y is the yield point inserted before every statement.
//
//go:norace
func Y() {
	steps++
	if limit != 0 && steps > limit {
		overrun()
	}
	if active != nil {
		active.point()
	}
}

//go:norace
func overrun() {
	over = true
	if OnOverrun != nil {
		OnOverrun(steps)
	}
	panic(Overrun{steps})
}
