package rdns

func init() {
	vfInFlight = func(p *Pipeline) int { return len(p.inFlight.requests) }
}
