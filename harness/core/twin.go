package core

import "context"

// Twin chooses what else happens to the builder of the component (see Twins).
func Twin(r *Rand, cfg Op) int {
	n := r.Range(1, 4)
	if cfg.I("def") == 1 || cfg.I("own") != 1 && r.Chance(50) {
		n = r.Range(1, 2)
	}
	if n <= 2 && cfg.I("own") == 1 {
		cfg["own"] = 0
	}
	cfg["live"] = r.Intn(2)
	return n
}

// Twins builds the component: conf gives the builder its configuration, or (decoy) another one.
// cfg.twin: what else the builder is used for: another component with the same configuration,
// before (1) or after it (2), or with another one, after (3) or before it (4).  poke uses the
// other component; nothing of it may be seen at the first one.
func Twins[T any](cfg Op, conf func(decoy bool), build func() T, poke func(T)) T {
	switch cfg.I("twin") {
	case 1:
		conf(false)
		poke(build())
	case 2, 3:
		conf(false)
		m := build()
		if cfg.I("twin") == 3 {
			conf(true)
		}
		poke(build())
		return m
	case 4:
		conf(true)
		poke(build())
		conf(false)
	default:
		conf(false)
	}
	return build()
}

// Decoy is the context of a decoy, which has ended or (cfg.live = 1) lasts until the script is over.
func (h *H) Decoy() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	if h.Cfg.I("live") == 1 {
		h.AtEnd(cancel)
	} else {
		cancel()
	}
	return ctx
}

// AtEnd has f called when the script is over.
func (h *H) AtEnd(f func()) { h.ends = append(h.ends, f) }

// Hold is a channel that is closed when the script is over.
func (h *H) Hold() chan struct{} {
	ch := make(chan struct{})
	h.AtEnd(func() { close(ch) })
	return ch
}

// Alien is what functions of a decoy do: nothing explains it.
func (h *H) Alien() { h.Log(Op{"e": "alien"}) }
