package lin

// Book is a notebook shared by the controlled goroutines.  Only one of them runs at a time, and this package is built
// without the race detector, so that taking notes neither orders the goroutines nor counts as a race.
type Book struct {
	clock int
	items []any
}

// Tick gives the next position in the history.
func (b *Book) Tick() int { b.clock++; return b.clock }

// Add keeps v and returns how many are kept.
func (b *Book) Add(v any) int { b.items = append(b.items, v); return len(b.items) }

// All returns what was kept.
func (b *Book) All() []any { return b.items }
